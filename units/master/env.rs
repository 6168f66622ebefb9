pub enum GMsg { Visit, Count, Data, SetData(MCaptcha), Stop, Remove(Seq<char>), CleanUp, Other }
pub enum GAns { Visit(AddVisitorResult), Count(u32), Data(MCaptcha), Other }
pub enum GState { Counter(MCaptcha), Other }
pub enum GExt { None }
