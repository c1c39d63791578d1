use crate::engine::*;
use crate::space::Inputs;

pub type Check = Box<dyn Fn(&str, &mut Ctx) -> Result<(), String>>;

/// A verdict applied to every text of a space.
pub struct TextJob {
    pub sp: Box<dyn Inputs>,
    pub f: Check,
    pub chunk: u64,
}
impl Job for TextJob {
    fn name(&self) -> String {
        self.sp.describe()
    }
    fn len(&self) -> u64 {
        self.sp.len()
    }
    fn run(&self, i: u64, ctx: &mut Ctx) -> Result<(), String> {
        let mut s = String::new();
        if !self.sp.get(i, &mut s) {
            return Ok(());
        }
        (self.f)(&s, ctx)
    }
    fn input(&self, i: u64) -> String {
        let mut s = String::new();
        self.sp.get(i, &mut s);
        s
    }
    fn chunk(&self) -> u64 {
        self.chunk
    }
}
