//! Reference macro expander, written from the documented behaviour of the Arma preprocessor and
//! independent of the implementation: it works on the bytes of one line and on a list of macros.
//! Texts whose meaning is not documented are `Unspecified`.

#[derive(Clone, PartialEq)]
pub enum Tok {
    W(Vec<u8>),
    C(u8),
    J,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bad {
    Error,
    Unspecified,
}
pub type R<T> = Result<T, Bad>;

pub struct Def {
    pub name: Vec<u8>,
    pub params: Option<Vec<Vec<u8>>>,
    pub body: Vec<Tok>,
}
#[derive(Default)]
pub struct Macros(pub Vec<Def>);

fn alpha(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
pub fn lex(b: &[u8]) -> R<Vec<Tok>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if alpha(b[i]) {
            if i > 0 && b[i - 1].is_ascii_digit() {
                return Err(Bad::Unspecified);
            }
            let s = i;
            while i < b.len() && (alpha(b[i]) || b[i].is_ascii_digit()) {
                i += 1;
            }
            out.push(Tok::W(b[s..i].to_vec()));
        } else if b[i] == b'#' && i + 1 < b.len() && b[i + 1] == b'#' {
            out.push(Tok::J);
            i += 2;
        } else {
            out.push(Tok::C(b[i]));
            i += 1;
        }
    }
    Ok(out)
}

type Env = Vec<(Vec<u8>, Vec<u8>)>;

impl Macros {
    pub fn get(&self, n: &[u8]) -> Option<&Def> {
        self.0.iter().find(|d| d.name == n)
    }
    pub fn undef(&mut self, n: &[u8]) -> bool {
        let k = self.0.len();
        self.0.retain(|d| d.name != n);
        k != self.0.len()
    }
    /// returns whether the macro was defined already
    pub fn define(&mut self, name: &[u8], params: Option<Vec<Vec<u8>>>, body: Vec<Tok>) -> bool {
        let r = self.undef(name);
        self.0.push(Def { name: name.to_vec(), params, body });
        r
    }
    pub fn line(&self, b: &[u8]) -> R<Vec<u8>> {
        let mut out = Vec::new();
        self.expand(&lex(b)?, &Vec::new(), &Vec::new(), false, &mut out)?;
        Ok(out)
    }
    fn expand(&self, t: &[Tok], env: &Env, active: &Vec<Vec<u8>>, body: bool, out: &mut Vec<u8>) -> R<()> {
        let mut i = 0;
        let mut q = false;
        while i < t.len() {
            match &t[i] {
                Tok::J if body => {
                    // pieces are joined as they are; what a macro next to it means is not documented
                    for k in [i.wrapping_sub(1), i + 1] {
                        match t.get(k) {
                            Some(Tok::W(w)) if env.iter().any(|e| e.0 == *w) || self.get(w).is_none() => {}
                            _ => return Err(Bad::Unspecified),
                        }
                    }
                    i += 1;
                }
                Tok::J => return Err(Bad::Unspecified),
                Tok::C(b'"') => {
                    q = !q;
                    out.push(b'"');
                    i += 1;
                }
                Tok::C(b'#') if body && !q => {
                    i += 1;
                    match t.get(i) {
                        Some(Tok::W(w)) => {
                            if let Some(v) = env.iter().find(|e| e.0 == *w) {
                                out.push(b'"');
                                out.extend(&v.1);
                                out.push(b'"');
                                i += 1;
                            } else {
                                return Err(Bad::Unspecified);
                            }
                        }
                        _ => return Err(Bad::Unspecified),
                    }
                }
                Tok::C(c) => {
                    out.push(*c);
                    i += 1;
                }
                Tok::W(w) if q => {
                    out.extend(w);
                    i += 1;
                }
                Tok::W(_) => i = self.word(t, i, env, active, body, out)?,
            }
        }
        if q {
            return Err(Bad::Unspecified);
        }
        Ok(())
    }
    fn word(&self, t: &[Tok], mut i: usize, env: &Env, active: &Vec<Vec<u8>>, body: bool, out: &mut Vec<u8>) -> R<usize> {
        let Tok::W(w) = &t[i] else { return Err(Bad::Unspecified) };
        i += 1;
        if let Some(v) = env.iter().find(|e| e.0 == *w) {
            out.extend(&v.1);
            return Ok(i);
        }
        let Some(d) = self.get(w) else {
            out.extend(w);
            return Ok(i);
        };
        if active.contains(w) {
            out.extend(w);
            return Ok(i);
        }
        let mut inner = active.clone();
        inner.push(w.clone());
        let Some(params) = &d.params else {
            if d.body.is_empty() {
                return Err(Bad::Unspecified);
            }
            self.expand(&d.body, &Vec::new(), &inner, true, out)?;
            return Ok(i);
        };
        if t.get(i) != Some(&Tok::C(b'(')) {
            return Err(Bad::Error);
        }
        i += 1;
        let mut args = Vec::new();
        let mut arg: Vec<u8> = Vec::new();
        let mut depth = 0;
        let mut q = false;
        loop {
            match t.get(i) {
                None => return Err(Bad::Unspecified),
                Some(Tok::J) => return Err(Bad::Unspecified),
                Some(Tok::C(b'#')) if body => return Err(Bad::Unspecified),
                Some(Tok::C(b'"')) => {
                    q = !q;
                    arg.push(b'"');
                    i += 1;
                }
                Some(Tok::C(c)) if q => {
                    arg.push(*c);
                    i += 1;
                }
                Some(Tok::W(w)) if q => {
                    arg.extend(w);
                    i += 1;
                }
                Some(Tok::C(b')')) if depth == 0 => {
                    i += 1;
                    break;
                }
                Some(Tok::C(b',')) => {
                    args.push(std::mem::take(&mut arg));
                    i += 1;
                    if depth > 0 {
                        return Err(Bad::Unspecified);
                    }
                }
                Some(Tok::C(c)) => {
                    if *c == b'(' {
                        depth += 1;
                    }
                    if *c == b')' {
                        depth -= 1;
                    }
                    arg.push(*c);
                    i += 1;
                }
                Some(Tok::W(_)) => i = self.word(t, i, env, active, body, &mut arg)?,
            }
        }
        if !arg.is_empty() || !args.is_empty() {
            args.push(arg);
        }
        if args.iter().any(|a| a.is_empty()) {
            return Err(Bad::Unspecified);
        }
        if args.len() != params.len() {
            return Err(Bad::Error);
        }
        let env: Env = params.iter().cloned().zip(args).collect();
        self.expand(&d.body, &env, &inner, true, out)?;
        Ok(i)
    }
}

/// Text without directives and macros: comments removed, continued lines joined; `None` where
/// the meaning is not documented (a string or comment that never ends).
pub fn strip(b: &[u8]) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = Vec::new();
    let mut i = 0;
    let mut quote = 0u8;
    while i < b.len() {
        let c = b[i];
        if quote == 0 && c == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if quote == 0 && c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            i += 2;
            loop {
                if i + 1 >= b.len() {
                    return None;
                }
                if b[i] == b'*' && b[i + 1] == b'/' {
                    break;
                }
                i += 1;
            }
            i += 2;
            continue;
        }
        if c == b'"' || c == b'\'' {
            if quote == 0 {
                quote = c;
            } else if quote == c {
                quote = 0;
            }
        }
        if c == b'\n' && out.last() == Some(&b'\\') {
            out.pop();
            i += 1;
            continue;
        }
        out.push(c);
        i += 1;
    }
    if quote != 0 {
        return None;
    }
    Some(out)
}
