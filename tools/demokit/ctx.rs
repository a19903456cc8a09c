pub struct H(u64);
impl H {
    pub fn new() -> H { H(0) }
    pub fn u(&mut self, _: u64) -> &mut H { self }
    pub fn s(&mut self, _: &str) -> &mut H { self }
    pub fn get(&self) -> u64 { self.0 }
}
