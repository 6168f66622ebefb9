pub enum GMsg { DropChallenge(Seq<char>), DropToken(Seq<char>), Other }
pub enum GAns { Other }
pub enum GState { Other }
pub enum GExt { None }
