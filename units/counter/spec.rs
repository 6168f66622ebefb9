impl Counter {
    pub open spec fn c(self) -> MCaptcha { self.@Counter.0@ }
    pub open spec fn wf(self) -> bool { self.c().wf() }
}
