//! Scripts out of symbolic choices, with what they mean: the grammar of the documentation.
use crate::sqfc::{At, S, T};
use symrt::*;

pub struct Gen {
    pub src: Vec<u8>,
    pub line: u16,
    pub style: usize,
    pub budget: usize,
    /// binary operators and how many of them
    pub ops: &'static [&'static str],
    /// unary operators
    pub uns: &'static [&'static str],
    /// kinds of primaries
    pub kinds: &'static [u8],
    pub nums: &'static [&'static str],
    /// with their quotes, the contents
    pub strs: &'static [(&'static str, &'static str)],
    pub vars: &'static [&'static str],
}
fn prec(op: &str) -> usize {
    let op = &*op.to_ascii_lowercase();
    match op {
        "#" => 9,
        "^" => 8,
        "*" | "/" | "%" | "mod" | "atan2" => 7,
        "+" | "-" | "max" | "min" => 6,
        "else" => 5,
        "==" | "!=" | ">" | "<" | ">=" | "<=" | ">>" => 3,
        "&&" | "and" => 2,
        "||" | "or" => 1,
        _ => 4,
    }
}
pub fn lower(t: &[u8]) -> Vec<u8> {
    let t: Vec<u8> = t.iter().map(u8::to_ascii_lowercase).collect();
    match &t[..] {
        b"and" => b"&&".to_vec(),
        b"or" => b"||".to_vec(),
        _ => t,
    }
}
fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$'
}
impl Gen {
    pub fn new(style: usize, budget: usize) -> Self {
        Self { src: Vec::new(), line: 1, style, budget, ops: &["+"], uns: &["-"], kinds: &[0, 1], nums: &["1"], strs: &[], vars: &["_X1"] }
    }
    /// the next token
    pub fn put(&mut self, t: &[u8]) -> At {
        let last = self.src.last().copied().unwrap_or(b' ');
        match self.style {
            1 => self.src.push(b' '),
            // that would be a directive
            2 if t != b"#" => {
                self.src.push(b'\n');
                self.line += 1;
            }
            _ => {
                // only where needed
                let op = |c: u8| b"!=<>&|+-*/^#:%".contains(&c);
                let glue = (word(last) || b"\"'".contains(&last)) && (word(t[0]) || b"\"'".contains(&t[0])) || op(last) && op(t[0]) || last == b'-' && word(t[0]);
                if glue {
                    self.src.push(b' ');
                }
            }
        }
        let at = (self.src.len() as u32, self.line);
        self.src.extend(t);
        at
    }
    pub fn more(&mut self) -> bool {
        if self.budget > 0 && flip() {
            self.budget -= 1;
            return true;
        }
        false
    }
    fn primary(&mut self) -> T {
        let k = self.kinds[choice(self.kinds.len())];
        if (6..9).contains(&k) {
            assume(self.budget > 0);
            self.budget -= 1;
        }
        match k {
            0 => {
                let n = self.nums[choice(self.nums.len())];
                self.put(n.as_bytes());
                T::Num(n.parse::<f32>().unwrap().to_bits())
            }
            1 => {
                let n = self.vars[choice(self.vars.len())].as_bytes();
                let at = self.put(n);
                T::Var(lower(n), at)
            }
            2 => {
                let (t, s) = self.strs[choice(self.strs.len())];
                self.put(t.as_bytes());
                T::Str(s.as_bytes().to_vec())
            }
            3 => {
                let k = flip();
                self.put(if k { b"True" } else { b"false" });
                T::Bool(k)
            }
            4 => {
                let at = self.put(b"Player");
                T::Nular(b"player".to_vec(), at)
            }
            5 => {
                self.put(b"objNull");
                T::Const(b"objnull".to_vec())
            }
            6 => {
                self.put(b"(");
                let e = self.expr();
                self.put(b")");
                e
            }
            7 => {
                self.put(b"[");
                let mut v = Vec::new();
                while self.more() {
                    if !v.is_empty() {
                        self.put(b",");
                    }
                    v.push(self.expr());
                }
                self.put(b"]");
                T::Arr(v, false)
            }
            8 => {
                self.put(b"{");
                let (s, from, to) = self.statements();
                let text = if s.is_empty() { Vec::new() } else { self.src[from..to].to_vec() };
                self.put(b"}");
                T::Code(s, text)
            }
            _ => {
                self.put(b"$1fF");
                T::Num(511f32.to_bits())
            }
        }
    }
    fn unary(&mut self) -> T {
        if self.more() {
            let u = self.uns[choice(self.uns.len())];
            let at = self.put(u.as_bytes());
            let a = self.unary();
            return T::Un(lower(u.as_bytes()), Box::new(a), at);
        }
        self.primary()
    }
    pub fn expr(&mut self) -> T {
        let mut v = vec![self.unary()];
        let mut ops: Vec<(&str, At)> = Vec::new();
        while self.more() {
            let o = self.ops[choice(self.ops.len())];
            let at = self.put(o.as_bytes());
            ops.push((o, at));
            v.push(self.unary());
        }
        for p in (1..10).rev() {
            let mut i = 0;
            while i < ops.len() {
                if prec(ops[i].0) == p {
                    let (o, at) = ops.remove(i);
                    let b = v.remove(i + 1);
                    let a = std::mem::replace(&mut v[i], T::Bool(false));
                    v[i] = T::Bin(lower(o.as_bytes()), Box::new(a), Box::new(b), at);
                } else {
                    i += 1;
                }
            }
        }
        v.pop().unwrap()
    }
    /// statements, and where their first and last tokens begin and end
    pub fn statements(&mut self) -> (Vec<S>, usize, usize) {
        let mut v = Vec::new();
        let mut from = 0;
        let mut to = 0;
        while self.more() {
            if !v.is_empty() {
                self.put(b";");
            }
            // tokens put before: the first begins at the next place
            let n = self.src.len();
            let s = match choice(3) {
                0 => {
                    let at = self.put(b"Gl");
                    self.put(b"=");
                    S::Global(b"gl".to_vec(), self.expr(), at)
                }
                1 => {
                    let at = self.put(b"private");
                    self.put(b"_L");
                    self.put(b"=");
                    S::Local(b"_l".to_vec(), self.expr(), at)
                }
                _ => S::Expr(self.expr()),
            };
            if v.is_empty() {
                from = (n..self.src.len()).find(|i| !b" \n".contains(&self.src[*i])).unwrap();
            }
            to = self.src.len();
            v.push(s);
        }
        if !v.is_empty() && flip() {
            self.put(b";");
            to = self.src.len();
        }
        (v, from, to)
    }
}
