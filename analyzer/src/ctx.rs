//! Nondeterministic choice by re-execution of the current step.
#[derive(Debug, Clone)]
pub enum Stop {
    /// infeasible alternative
    Prune,
    /// an equal state has been explored
    Merged,
    Violation(String),
    Unsupported(String),
}
pub type Res<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Ctx {
    script: Vec<(usize, usize)>,
    pos: usize,
}
impl Ctx {
    pub fn choose(&mut self, n: usize) -> Res<usize> {
        if n == 0 {
            return Err(Stop::Prune);
        }
        if n == 1 {
            return Ok(0);
        }
        if self.pos < self.script.len() {
            let (c, m) = self.script[self.pos];
            debug_assert_eq!(m, n);
            self.pos += 1;
            return Ok(c);
        }
        self.script.push((0, n));
        self.pos += 1;
        Ok(0)
    }
    /// Start a new step.
    pub fn begin(&mut self) {
        self.script.clear();
        self.pos = 0;
    }
    /// Move to the next alternative of the step; false when exhausted.
    pub fn advance(&mut self) -> bool {
        self.script.truncate(self.pos);
        while let Some((c, n)) = self.script.pop() {
            if c + 1 < n {
                self.script.push((c + 1, n));
                self.pos = 0;
                return true;
            }
        }
        false
    }
    pub fn forked(&self) -> bool {
        !self.script.is_empty()
    }
}
