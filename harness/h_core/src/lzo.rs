use hemtt_lzo::*;
use symrt::*;

fn roundtrip(data: &[u8]) {
    let cap = worst_compress(data.len());
    let mut v: Vec<u8> = Vec::with_capacity(cap);
    check(compress(data, &mut v).is_ok(), "compress failed");
    check(v.len() <= cap, "compressed size exceeds the announced worst case");
    let mut buf = vec![0xAAu8; cap];
    let n = compress_to_slice(data, &mut buf).unwrap().len();
    check(v[..] == buf[..n], "the two compression entry points disagree");
    let mut out = vec![0x55u8; data.len()];
    match decompress_to_slice(&v, &mut out) {
        Ok(o) => {
            check(o.len() == data.len(), "decompressed length");
            check(*o == *data, "decompressed data differs from the input");
        }
        Err(_) => fail("decompression of compressed data failed"),
    }
    obs_u(v.len() as u64);
    obs(&v);
    reach("roundtrip");
}

/// reference decoder for LZO1X streams, with explicit bounds
fn reference(src: &[u8], cap: usize) -> Result<Vec<u8>, ()> {
    let mut o: Vec<u8> = Vec::new();
    let mut i = 0usize;
    let mut state = 0usize;
    let get = |i: usize| src.get(i).copied().map(usize::from).ok_or(());
    if src.len() < 3 {
        return Err(());
    }
    macro_rules! lit {
        ($n:expr) => {{
            let n = $n;
            if o.len() + n > cap || i + n + 3 > src.len() {
                return Err(());
            }
            for k in 0..n {
                o.push(src[i + k]);
            }
            i += n;
        }};
    }
    macro_rules! ext {
        ($base:expr) => {{
            let mut l = $base;
            loop {
                let b = get(i)?;
                i += 1;
                if b != 0 {
                    l += b;
                    break;
                }
                l += 255;
            }
            l
        }};
    }
    if src[0] > 17 {
        let t = src[0] as usize - 17;
        i = 1;
        lit!(t);
        state = if t < 4 { t } else { 4 };
    }
    loop {
        let t = get(i)?;
        i += 1;
        let (dist, mlen, next);
        if t < 16 {
            if state == 0 {
                let n = if t == 0 { ext!(15 + 3) } else { t + 3 };
                lit!(n);
                state = 4;
                continue;
            }
            let b = get(i)?;
            i += 1;
            next = t & 3;
            if state != 4 {
                dist = (b << 2) + (t >> 2) + 1;
                mlen = 2;
            } else {
                dist = (b << 2) + (t >> 2) + 1 + 0x800;
                mlen = 3;
            }
        } else if t >= 64 {
            let b = get(i)?;
            i += 1;
            next = t & 3;
            dist = (b << 3) + ((t >> 2) & 7) + 1;
            mlen = (t >> 5) + 1;
        } else if t >= 32 {
            mlen = if t & 31 == 0 { ext!(31 + 2) } else { (t & 31) + 2 };
            let d = get(i)? | (get(i + 1)? << 8);
            i += 2;
            next = d & 3;
            dist = (d >> 2) + 1;
        } else {
            mlen = if t & 7 == 0 { ext!(7 + 2) } else { (t & 7) + 2 };
            let d = get(i)? | (get(i + 1)? << 8);
            i += 2;
            next = d & 3;
            let far = ((t & 8) << 11) + (d >> 2);
            if far == 0 {
                return if mlen == 3 && i == src.len() { Ok(o) } else { Err(()) };
            }
            dist = far + 0x4000;
        }
        if dist > o.len() || o.len() + mlen > cap {
            return Err(());
        }
        for _ in 0..mlen {
            o.push(o[o.len() - dist]);
        }
        lit!(next);
        state = next;
    }
}

pub fn run(h: u32) {
    match h {
        // arbitrary data, too short for matches
        0 => roundtrip(&bytes(len(0, param(0)))),
        // literal prefix of arbitrary bytes, then runs
        1 => {
            let mut d = Vec::new();
            let runs = 1 + choice(param(0));
            for _ in 0..runs {
                let b = of(b"ab");
                for _ in 0..len(1, param(1)) {
                    d.push(b);
                }
            }
            for i in 0..len(0, 6) {
                d.push(b'0' + i as u8);
            }
            roundtrip(&d)
        }
        // a marker repeated at a chosen distance, across the encoding's distance classes
        2 => {
            // distances around every boundary of the format
            const AT: [usize; 9] = [0x6, 0x28, 0x400, 0x800, 0x2000, 0x4000, 0x7fff, 0x8000, 0xbfff];
            let mlen = [4, 8, 9, 10, 33, 34, 40, 300][choice(8)];
            let dist = (AT[choice(AT.len())] + choice(param(0))).saturating_sub(param(0) / 2).max(mlen);
            let tail = choice(3);
            let mark: Vec<u8> = (0..mlen).map(|i| (i * 7 + 3) as u8).collect();
            let mut d = mark.clone();
            if flip() {
                // filler without repetitions of four bytes
                let mut x = 0x1234_5678u32;
                while d.len() < dist {
                    x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                    d.push((x >> 24) as u8);
                }
            } else {
                // filler that is one match, behind which the marker is compared at its first byte
                d.resize(dist, 1);
            }
            d.extend(&mark);
            // bytes after the match
            for i in 0..[0usize, 3, 22][tail] {
                d.push(if i == 0 { u8() } else { i as u8 });
            }
            roundtrip(&d)
        }
        // literal runs of every length class between matches
        3 => {
            let lit = len(0, param(0));
            let mut d: Vec<u8> = b"wxyzwxyzwxyz".to_vec();
            let mut x = 7u32;
            for _ in 0..lit {
                x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                d.push((x >> 24) as u8);
            }
            d.extend(b"wxyzwxyzwxyzwxyzwxyzwxyz");
            let k = choice(4);
            for i in 0..k {
                d.push(if i == 0 { u8() } else { 200 + i as u8 });
            }
            roundtrip(&d)
        }
        // arbitrary compressed bytes: stays inside both buffers and agrees with the reference decoder
        4 => {
            let src = bytes(len(0, param(0)));
            let cap = [0usize, 1, 4, 24][choice(4)];
            decode(&src, cap)
        }
        // a valid literal head, then arbitrary instructions
        5 => {
            let head = if param(1) == 1 { 1 + choice(2) } else { [0, 0, 3][param(1)] };
            // as many literals as there are states; the last is long enough for the far short match
            let n = [8usize, 1, 3, 2100][head];
            let mut src = Vec::new();
            if n < 200 {
                src.push(17 + n as u8);
            } else {
                let m = n - 18;
                src.extend(vec![0; m / 255 + 1]);
                src.push((m % 255) as u8);
            }
            src.extend((0..n).map(|i| b'A' + (i % 29) as u8));
            let k = len(0, param(0));
            if head == 3 {
                if k > 1 {
                    src.push(choice(16) as u8);
                    src.push([0, 1, 12, 13, 255][choice(5)]);
                }
                src.extend(bytes(k.saturating_sub(2)));
            } else {
                src.extend(bytes(k));
            }
            if flip() {
                src.extend([17, 0, 0]);
            }
            let cap = n + [0usize, 3, 32][choice(3)];
            decode(&src, cap)
        }
        // output buffer smaller than needed: an error, never a write outside the buffer
        6 => {
            let d = bytes(len(0, param(0)));
            let cap = len(0, param(1));
            let mut buf = vec![0u8; cap];
            match compress_to_slice(&d, &mut buf) {
                Ok(o) => {
                    let o = o.to_vec();
                    let mut out = vec![0u8; d.len()];
                    let r = decompress_to_slice(&o, &mut out).map(|x| x.to_vec());
                    check(r == Ok(d), "compressed into a tight buffer: wrong data");
                    reach("fits");
                }
                Err(_) => reach("too small"),
            }
        }
        7 => {
            let d = bytes(len(0, param(0)));
            let cap = len(0, param(1));
            let mut v: Vec<u8> = Vec::with_capacity(cap);
            match compress(&d, &mut v) {
                Ok(()) => {
                    check(v.len() <= v.capacity(), "length exceeds the capacity");
                    let mut out = vec![0u8; d.len()];
                    let r = decompress_to_slice(&v, &mut out).map(|x| x.to_vec());
                    check(r == Ok(d), "compressed into a tight vector: wrong data");
                    reach("fits");
                }
                Err(_) => reach("too small"),
            }
        }
        // truncated or extended compressed data is an error
        _ => {
            let d = bytes(len(1, param(0)));
            let mut v: Vec<u8> = Vec::with_capacity(worst_compress(d.len()));
            compress(&d, &mut v).unwrap();
            let mut out = vec![0u8; 64];
            if flip() {
                let cut = choice(v.len());
                check(decompress_to_slice(&v[..cut], &mut out).is_err(), "truncated data accepted");
                reach("cut");
            } else {
                v.push(u8());
                check(decompress_to_slice(&v, &mut out).is_err(), "extended data accepted");
                reach("extended");
            }
        }
    }
}

fn decode(src: &[u8], cap: usize) {
    let mut out = vec![0u8; cap];
    let got = decompress_to_slice(src, &mut out).map(|o| o.to_vec());
    let want = reference(src, cap);
    match (&got, &want) {
        (Ok(a), Ok(b)) => {
            check(a == b, "decoded data differs from the reference decoder");
            reach("decoded");
        }
        (Err(_), Err(())) => reach("rejected"),
        (Ok(_), _) => fail("accepts a stream the reference decoder rejects"),
        _ => fail("rejects a stream the reference decoder accepts"),
    }
    obs_u(u64::from(got.is_ok()));
}
