pub struct Terms { pub key: Seq<char>, pub difficulty: u32, pub duration: u64 }
impl CachedPoWConfig {
    pub open spec fn terms(self) -> Terms { Terms { key: self.key@, difficulty: self.difficulty_factor, duration: self.duration } }
}
impl HashCache {
    /// outstanding challenges and the terms they were cached with
    pub open spec fn pows(self) -> Map<Seq<char>, Terms> { self.@HashCache.difficulty_map@@.map_values(|c: CachedPoWConfig| c.terms()) }
    /// unused tokens and the sitekey they were issued for
    pub open spec fn toks(self) -> Map<Seq<char>, Seq<char>> { self.@HashCache.result_map@@.map_values(|k: String| k@) }
}
pub open spec fn opt_terms(o: Option<CachedPoWConfig>) -> Option<Terms> { match o { Some(c) => Some(c.terms()), None => None } }
pub open spec fn lookup<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.dom().contains(k) { Some(m[k]) } else { None } }
