//! An independent reader of binarised configs.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    S(Vec<u8>),
    I(i64),
    F(u32),
    A(Vec<V>),
    E(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Val(Vec<u8>, V),
    Exp(Vec<u8>, Vec<V>),
    Class(Vec<u8>, Vec<u8>, Vec<P>),
    Ext(Vec<u8>),
    Del(Vec<u8>),
}
struct R<'a> {
    b: &'a [u8],
    at: usize,
    /// bytes read so far, every byte has to be read once
    read: usize,
}
type Res<T> = Result<T, &'static str>;
impl R<'_> {
    fn u8(&mut self) -> Res<u8> {
        let v = *self.b.get(self.at).ok_or("a binarised config ends early")?;
        self.at += 1;
        self.read += 1;
        Ok(v)
    }
    fn u32(&mut self) -> Res<u32> {
        Ok(u32::from_le_bytes([self.u8()?, self.u8()?, self.u8()?, self.u8()?]))
    }
    fn str(&mut self) -> Res<Vec<u8>> {
        let mut v = Vec::new();
        loop {
            let c = self.u8()?;
            if c == 0 {
                return Ok(v);
            }
            v.push(c);
        }
    }
    fn count(&mut self) -> Res<usize> {
        let mut v = 0;
        let mut s = 0;
        loop {
            let c = self.u8()?;
            v |= usize::from(c & 0x7f) << s;
            if c < 0x80 {
                return Ok(v);
            }
            s += 7;
        }
    }
    fn value(&mut self, code: u8) -> Res<V> {
        Ok(match code {
            0 => V::S(self.str()?),
            1 => V::F(self.u32()?),
            2 => V::I(i64::from(self.u32()? as i32)),
            3 => V::A(self.array()?),
            4 => V::E(self.str()?),
            6 => {
                let l = self.u32()?;
                let h = self.u32()?;
                V::I((u64::from(l) | u64::from(h) << 32) as i64)
            }
            _ => return Err("an unknown kind of value in a binarised config"),
        })
    }
    fn array(&mut self) -> Res<Vec<V>> {
        let mut v = Vec::new();
        for _ in 0..self.count()? {
            let c = self.u8()?;
            v.push(self.value(c)?);
        }
        Ok(v)
    }
    /// the class whose body starts here: its parent and content; leaves the position behind the class
    fn class(&mut self) -> Res<(Vec<u8>, Vec<P>)> {
        let parent = self.str()?;
        let n = self.count()?;
        let mut v = Vec::new();
        let mut bodies = Vec::new();
        for _ in 0..n {
            match self.u8()? {
                0 => {
                    let name = self.str()?;
                    let at = self.u32()? as usize;
                    bodies.push((v.len(), at));
                    v.push(P::Class(name, Vec::new(), Vec::new()));
                }
                1 => {
                    let c = self.u8()?;
                    let name = self.str()?;
                    v.push(P::Val(name, self.value(c)?));
                }
                2 => {
                    let name = self.str()?;
                    v.push(P::Val(name, V::A(self.array()?)));
                }
                3 => v.push(P::Ext(self.str()?)),
                4 => v.push(P::Del(self.str()?)),
                5 => {
                    if self.u32()? != 1 {
                        return Err("an array with unknown flags in a binarised config");
                    }
                    let name = self.str()?;
                    v.push(P::Exp(name, self.array()?));
                }
                _ => return Err("an unknown kind of entry in a binarised config"),
            }
        }
        let end = self.u32()? as usize;
        for (i, at) in bodies {
            self.at = at;
            let (parent, content) = self.class()?;
            if let P::Class(_, p, c) = &mut v[i] {
                *p = parent;
                *c = content;
            }
        }
        if self.at != end {
            return Err("the end of a class is wrong in a binarised config");
        }
        Ok((parent, v))
    }
}
pub fn unrap(b: &[u8]) -> Res<Vec<P>> {
    let mut r = R { b, at: 4, read: 4 };
    if b.len() < 4 || &b[..4] != b"\0raP" {
        return Err("a binarised config has the wrong signature");
    }
    if r.u32()? != 0 || r.u32()? != 8 {
        return Err("a binarised config has the wrong version");
    }
    let enums = r.u32()? as usize;
    let (parent, v) = r.class()?;
    if !parent.is_empty() {
        return Err("the root of a binarised config has a parent");
    }
    if r.at != enums || r.u32()? != 0 {
        return Err("the enums of a binarised config are misplaced");
    }
    if r.read != b.len() {
        return Err("a binarised config has bytes that nothing refers to");
    }
    Ok(v)
}
