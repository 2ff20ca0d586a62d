//! An independent reader of compiled scripts: back from instructions to expressions.

/// offset, line
pub type At = (u32, u16);
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Num(u32),
    Str(Vec<u8>),
    Bool(bool),
    /// whether it is one constant for all executions
    Arr(Vec<T>, bool),
    /// a command as a constant
    Const(Vec<u8>),
    Nular(Vec<u8>, At),
    Un(Vec<u8>, Box<T>, At),
    Bin(Vec<u8>, Box<T>, Box<T>, At),
    Var(Vec<u8>, At),
    /// statements and their text
    Code(Vec<S>, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Global(Vec<u8>, T, At),
    Local(Vec<u8>, T, At),
    Expr(T),
}
pub struct Script {
    pub code: Vec<S>,
    pub source: Vec<u8>,
    pub files: Vec<Vec<u8>>,
}

enum Ptr {
    Const(usize),
    Text(usize, usize),
}
enum I {
    End,
    Push(usize),
    /// kind, name, where, file
    Name(u8, usize, At, u8),
    Array(usize, u8),
}
enum C {
    Code(Ptr, Vec<I>),
    Str(Vec<u8>),
    Num(u32),
    Bool(bool),
    Arr(Vec<C>),
    Nular(Vec<u8>),
}
type Res<T> = Result<T, &'static str>;
struct R<'a> {
    b: &'a [u8],
    at: usize,
}
impl R<'_> {
    fn u8(&mut self) -> Res<u8> {
        let v = *self.b.get(self.at).ok_or("a compiled script ends early")?;
        self.at += 1;
        Ok(v)
    }
    fn n(&mut self, n: usize) -> Res<usize> {
        let mut v = 0;
        for i in 0..n {
            v |= usize::from(self.u8()?) << (8 * i);
        }
        Ok(v)
    }
    fn str(&mut self) -> Res<Vec<u8>> {
        let n = self.n(3)?;
        (0..n).map(|_| self.u8()).collect()
    }
    fn ins(&mut self) -> Res<I> {
        let tag = self.u8()?;
        Ok(match tag {
            0 => I::End,
            1 => I::Push(self.n(2)?),
            2..=8 => {
                let offset = self.n(4)? as u32;
                let file = self.u8()?;
                let line = self.n(2)? as u16;
                let n = self.n(2)?;
                if tag == 8 {
                    I::Array(n, file)
                } else {
                    I::Name(tag, n, (offset, line), file)
                }
            }
            _ => return Err("an unknown instruction in a compiled script"),
        })
    }
    fn constant(&mut self) -> Res<C> {
        Ok(match self.u8()? {
            0 => {
                let lo = self.n(4)?;
                let hi = self.n(4)?;
                let p = if hi & 0x8000_0000 != 0 { Ptr::Text(lo, hi & 0x7fff_ffff) } else { Ptr::Const(lo | hi << 32) };
                let n = self.n(4)?;
                C::Code(p, (0..n).map(|_| self.ins()).collect::<Res<_>>()?)
            }
            1 => C::Str(self.str()?),
            2 => C::Num(self.n(4)? as u32),
            3 => C::Bool(match self.u8()? {
                0 => false,
                1 => true,
                _ => return Err("an unknown truth value in a compiled script"),
            }),
            4 => {
                let n = self.n(4)?;
                C::Arr((0..n).map(|_| self.constant()).collect::<Res<_>>()?)
            }
            5 => C::Nular(self.str()?),
            _ => return Err("an unknown constant in a compiled script"),
        })
    }
    /// a compressed block
    fn block(&mut self) -> Res<Vec<u8>> {
        let n = self.n(4)?;
        if self.u8()? != 2 {
            return Err("an unknown compression in a compiled script");
        }
        let (v, used) = unlzo(&self.b[self.at..])?;
        self.at += used;
        if v.len() != n {
            return Err("a block of a compiled script has the wrong size");
        }
        Ok(v)
    }
}
/// LZO1X up to its end mark: data and bytes used
fn unlzo(b: &[u8]) -> Res<(Vec<u8>, usize)> {
    const E: &str = "a compressed block of a compiled script is malformed";
    let mut o: Vec<u8> = Vec::new();
    let mut i = 0;
    let get = |i: &mut usize| -> Res<usize> {
        let v = *b.get(*i).ok_or(E)?;
        *i += 1;
        Ok(usize::from(v))
    };
    let long = |i: &mut usize, base: usize| -> Res<usize> {
        let mut n = base;
        loop {
            match get(i)? {
                0 => n += 255,
                v => return Ok(n + v),
            }
        }
    };
    // literals before the instruction: 0 none, 1..3 few, 4 a run
    let mut state = 0;
    let t = get(&mut i)?;
    if t > 17 {
        let n = t - 17;
        for _ in 0..n {
            o.push(get(&mut i)? as u8);
        }
        state = if n < 4 { n } else { 4 };
    } else {
        i -= 1;
    }
    loop {
        let t = get(&mut i)?;
        let (len, dist, lits);
        if t < 16 {
            if state == 0 {
                let n = if t == 0 { long(&mut i, 18)? } else { t + 3 };
                for _ in 0..n {
                    o.push(get(&mut i)? as u8);
                }
                state = 4;
                continue;
            }
            let h = get(&mut i)?;
            if state == 4 {
                len = 3;
                dist = (h << 2) + (t >> 2) + 2049;
            } else {
                len = 2;
                dist = (h << 2) + (t >> 2) + 1;
            }
            lits = t & 3;
        } else if t < 64 {
            let far = t < 32;
            let l = if far { t & 7 } else { t & 31 };
            len = 2 + if l == 0 { long(&mut i, if far { 7 } else { 31 })? } else { l };
            let w = get(&mut i)? | get(&mut i)? << 8;
            lits = w & 3;
            if far {
                let d = (w >> 2) + ((t & 8) << 11);
                if d == 0 {
                    return Ok((o, i));
                }
                dist = d + 0x4000;
            } else {
                dist = (w >> 2) + 1;
            }
        } else {
            let h = get(&mut i)?;
            dist = (h << 3) + ((t >> 2) & 7) + 1;
            len = if t < 128 { 3 + ((t >> 5) & 1) } else { 5 + ((t >> 5) & 3) };
            lits = t & 3;
        }
        let from = o.len().checked_sub(dist).ok_or(E)?;
        for k in 0..len {
            let v = o[from + k];
            o.push(v);
        }
        for _ in 0..lits {
            o.push(get(&mut i)? as u8);
        }
        state = lits;
    }
}
struct Env<'a> {
    names: &'a [Vec<u8>],
    consts: &'a [C],
    files: usize,
    text: &'a [u8],
}
impl Env<'_> {
    fn value(&self, c: &C) -> Res<T> {
        Ok(match c {
            C::Str(s) => T::Str(s.clone()),
            C::Num(n) => T::Num(*n),
            C::Bool(b) => T::Bool(*b),
            C::Nular(n) => T::Const(n.clone()),
            C::Arr(v) => T::Arr(v.iter().map(|c| self.value(c)).collect::<Res<_>>()?, true),
            C::Code(p, i) => {
                let Ptr::Text(at, n) = p else { return Err("inner code has a text of its own") };
                let t = self.text.get(*at..at + n).ok_or("the text of inner code is outside the script")?;
                T::Code(self.code(i)?, t.to_vec())
            }
        })
    }
    fn code(&self, ins: &[I]) -> Res<Vec<S>> {
        const E: &str = "the instructions of a statement do not fit together";
        let mut out: Vec<S> = Vec::new();
        let mut stack: Vec<T> = Vec::new();
        let mut done = true;
        let flush = |stack: &mut Vec<T>, done: bool, out: &mut Vec<S>| -> Res<()> {
            match (done, stack.len()) {
                (true, 0) => Ok(()),
                (false, 1) => {
                    out.push(S::Expr(stack.pop().unwrap()));
                    Ok(())
                }
                _ => Err(E),
            }
        };
        for i in ins {
            match i {
                I::End => {
                    flush(&mut stack, done, &mut out)?;
                    done = false;
                    continue;
                }
                _ if done => return Err(E),
                I::Push(n) => stack.push(self.value(self.consts.get(*n).ok_or("a constant that is not there")?)?),
                I::Array(n, f) => {
                    if usize::from(*f) >= self.files {
                        return Err("an instruction is in no file");
                    }
                    let at = stack.len().checked_sub(*n).ok_or(E)?;
                    let v = stack.split_off(at);
                    stack.push(T::Arr(v, false));
                }
                I::Name(k, n, at, f) => {
                    if usize::from(*f) >= self.files {
                        return Err("an instruction is in no file");
                    }
                    let n = self.names.get(*n).ok_or("a name that is not there")?.clone();
                    match k {
                        2 => {
                            let a = stack.pop().ok_or(E)?;
                            stack.push(T::Un(n, Box::new(a), *at));
                        }
                        3 => {
                            let b = stack.pop().ok_or(E)?;
                            let a = stack.pop().ok_or(E)?;
                            stack.push(T::Bin(n, Box::new(a), Box::new(b), *at));
                        }
                        4 => stack.push(T::Nular(n, *at)),
                        7 => stack.push(T::Var(n, *at)),
                        _ => {
                            let v = stack.pop().ok_or(E)?;
                            out.push(if *k == 5 { S::Global(n, v, *at) } else { S::Local(n, v, *at) });
                            done = true;
                        }
                    }
                }
            }
        }
        flush(&mut stack, done, &mut out)?;
        Ok(out)
    }
}
type Parts = (Vec<Vec<u8>>, Vec<C>, Vec<Vec<u8>>, usize);
fn parts(b: &[u8]) -> Res<Parts> {
    let mut r = R { b, at: 0 };
    if r.n(4)? != 1 {
        return Err("a compiled script has the wrong version");
    }
    let (mut names, mut consts, mut files, mut entry) = (None, None, None, None);
    while r.at < b.len() {
        match r.u8()? {
            5 => {
                let b = r.block()?;
                let mut r = R { b: &b, at: 0 };
                let n = r.n(2)?;
                names = Some((0..n).map(|_| r.str()).collect::<Res<Vec<_>>>()?);
                if r.at != b.len() {
                    return Err("bytes behind the names of a compiled script");
                }
            }
            1 => {
                let b = r.block()?;
                let mut r = R { b: &b, at: 0 };
                let n = r.n(2)?;
                consts = Some((0..n).map(|_| r.constant()).collect::<Res<Vec<_>>>()?);
                if r.at != b.len() {
                    return Err("bytes behind the constants of a compiled script");
                }
            }
            2 => {
                let n = r.n(2)?;
                files = Some((0..n).map(|_| r.str()).collect::<Res<Vec<_>>>()?);
            }
            3 => entry = Some(r.n(8)?),
            _ => return Err("an unknown block in a compiled script"),
        }
    }
    const E: &str = "a block is missing in a compiled script";
    Ok((names.ok_or(E)?, consts.ok_or(E)?, files.ok_or(E)?, entry.ok_or(E)?))
}
/// the name, offset, line and file of each instruction with a name, by offset
pub fn places(b: &[u8]) -> Res<Vec<(Vec<u8>, At, Vec<u8>)>> {
    const E: &str = "a name or file of a compiled script is not there";
    let (names, consts, files, _) = parts(b)?;
    let mut out = Vec::new();
    for c in &consts {
        let C::Code(_, v) = c else { continue };
        for i in v {
            if let I::Name(_, n, at, f) = i {
                out.push((names.get(*n).ok_or(E)?.clone(), *at, files.get(usize::from(*f)).ok_or(E)?.clone()));
            }
        }
    }
    out.sort_by_key(|(_, at, _)| at.0);
    Ok(out)
}
pub fn read(b: &[u8]) -> Res<Script> {
    let (names, consts, files, entry) = parts(b)?;
    let Some(C::Code(Ptr::Const(p), ins)) = consts.get(entry) else { return Err("the entry of a compiled script is no code") };
    let Some(C::Str(text)) = consts.get(*p) else { return Err("the text of a compiled script is not there") };
    let e = Env { names: &names, consts: &consts, files: files.len(), text };
    let code = e.code(ins)?;
    Ok(Script { code, source: text.clone(), files })
}
