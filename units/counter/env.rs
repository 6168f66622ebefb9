pub enum GMsg { Decrement(int), Other }
pub enum GAns { Other }
pub enum GState { Other }
pub enum GExt { None }
