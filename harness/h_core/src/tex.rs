use hemtt_paa::{Paa, PaXType};
use std::io::Cursor;
use symrt::*;

const KINDS: [([u8; 2], PaXType); 9] = [
    ([1, 255], PaXType::DXT1),
    ([2, 255], PaXType::DXT2),
    ([3, 255], PaXType::DXT3),
    ([4, 255], PaXType::DXT4),
    ([5, 255], PaXType::DXT5),
    ([68, 68], PaXType::RGBA4),
    ([21, 85], PaXType::RGBA5),
    ([136, 136], PaXType::RGBA8),
    ([128, 128], PaXType::GRAYA),
];
fn tagg(o: &mut Vec<u8>, name: &[u8], d: &[u8]) {
    o.extend(b"GGAT");
    o.extend(name);
    o.extend((d.len() as u32).to_le_bytes());
    o.extend(d);
}
fn u24(o: &mut Vec<u8>, v: usize) {
    o.extend(&(v as u32).to_le_bytes()[..3]);
}

pub fn run(h: u32) {
    match h {
        // arbitrary bytes
        0 => {
            let b = bytes(len(0, param(0)));
            match Paa::read(Cursor::new(b)) {
                Ok(p) => {
                    obs(&p.format().as_bytes());
                    reach("ok");
                }
                Err(_) => reach("err"),
            }
        }
        // the two signature bytes decide the format
        1 => {
            let b: [u8; 2] = array();
            let got = PaXType::from_bytes(b);
            let want = KINDS.iter().find(|k| k.0 == b);
            match (got, want) {
                (Some(g), Some(w)) => {
                    check(g == w.1, "format");
                    check(g.as_bytes() == b, "signature of the format");
                    reach("known");
                }
                (None, None) => reach("unknown"),
                _ => fail("known and unknown formats differ"),
            }
        }
        // tags and mipmaps come back as stored
        2 => {
            let kind = [0usize, 2, 4][choice(3)];
            let mut o = KINDS[kind].0.to_vec();
            let tag = bytes(len(0, 3));
            tagg(&mut o, b"CGVA", &tag);
            let nm = choice(3);
            let used = nm + choice(2);
            let pos = o.len() + 12 + used * 4 + 4;
            let w = u16();
            let hh = u16();
            let datas: Vec<Vec<u8>> = (0..nm).map(|_| bytes(len(0, 2))).collect();
            let mut offs = Vec::new();
            let mut at = pos;
            // the unused offset is anywhere
            let gap = len(0, nm);
            for (i, d) in datas.iter().enumerate() {
                if i == gap && used > nm {
                    offs.extend([0; 4]);
                }
                offs.extend((at as u32).to_le_bytes());
                at += 7 + d.len();
            }
            offs.resize(used * 4, 0);
            tagg(&mut o, b"SFFO", &offs);
            o.extend([0u8; 4]);
            for d in &datas {
                o.extend(w.to_le_bytes());
                o.extend(hh.to_le_bytes());
                u24(&mut o, d.len());
                o.extend(d);
            }
            obs(&o);
            let p = Paa::read(Cursor::new(o)).unwrap();
            check(*p.format() == KINDS[kind].1, "format");
            check(p.taggs().get("CGVA") == Some(&tag), "tag");
            check(p.maps().len() == nm, "number of mipmaps");
            for (m, d) in p.maps().iter().zip(&datas) {
                check(m.data() == d, "mipmap data");
                check(m.height() == hh, "mipmap height");
                check(m.is_compressed() == (w >= 0x8000), "compression flag");
                check(m.width() == w & 0x7fff, "mipmap width");
            }
            reach("read");
        }
        // arbitrary tag lengths and offsets: an answer, never a panic
        3 => {
            let kind = choice(9);
            let mut o = KINDS[kind].0.to_vec();
            o.extend(b"GGATSFFO");
            o.extend([len(0, 9) as u8, 0, 0, 0]);
            o.extend(bytes(param(0)));
            o.extend([0u8; 4]);
            o.extend([4, 0, 4, 0, 1, 0, 0, 9]);
            match Paa::read(Cursor::new(o)) {
                Ok(p) => {
                    obs_u(p.maps().len() as u64);
                    reach("ok");
                }
                Err(_) => reach("err"),
            }
        }
        // stored raw or compressed, a mipmap shows the same picture
        4 => {
            let kind = [0usize, 2, 4][choice(3)];
            let (w, hh) = [(4u16, 4u16), (1, 1), (2, 8), (8, 4), (5, 2), (8, 8)][choice(6)];
            let size = usize::from(w.div_ceil(4) * hh.div_ceil(4)) * if kind == 0 { 8 } else { 16 };
            let mut d: Vec<u8> = (0..size).map(|i| if i + 8 < size { (i * 37) as u8 } else { 0 }).collect();
            for i in 0..param(0) {
                let b = u8();
                d[size - 8 + i] = b;
            }
            let mk = |w: u16, data: &[u8]| {
                let mut o = KINDS[kind].0.to_vec();
                tagg(&mut o, b"SFFO", &(26u32 - 4).to_le_bytes());
                o.extend([0u8; 4]);
                check(o.len() == 22, "layout");
                o.extend(w.to_le_bytes());
                o.extend(hh.to_le_bytes());
                u24(&mut o, data.len());
                o.extend(data);
                Paa::read(Cursor::new(o)).unwrap()
            };
            let raw = mk(w, &d);
            let mut lzo = vec![17 + size as u8];
            lzo.extend(&d);
            lzo.extend([17, 0, 0]);
            let comp = mk(w | 0x8000, &lzo);
            let (a, b) = (raw.maps()[0].get_image().to_rgba8(), comp.maps()[0].get_image().to_rgba8());
            check(a.width() == u32::from(w) && a.height() == u32::from(hh), "picture size");
            check(a.as_raw() == b.as_raw(), "compressed and raw mipmaps show different pictures");
            reach("picture");
        }
        // many mipmaps, large data
        6 => {
            let mut o = KINDS[0].0.to_vec();
            let tag = vec![7u8; 70_001];
            tagg(&mut o, b"CGVA", &tag);
            tagg(&mut o, b"XXXX", &[]);
            let nm = [15usize, 16, 17][choice(3)];
            let mut at = o.len() + 12 + 64 + 4;
            let mut offs = Vec::new();
            let datas: Vec<Vec<u8>> = (0..nm).map(|i| vec![i as u8; if i == 1 { 70_002 } else { i * 17 }]).collect();
            for d in datas.iter().take(16) {
                offs.extend((at as u32).to_le_bytes());
                at += 7 + d.len();
            }
            offs.resize(64, 0);
            tagg(&mut o, b"SFFO", &offs);
            o.extend([0u8; 4]);
            for (i, d) in datas.iter().enumerate() {
                o.extend((1000 + i as u16).to_le_bytes());
                o.extend((2000 + i as u16).to_le_bytes());
                u24(&mut o, d.len());
                o.extend(d);
            }
            let p = Paa::read(Cursor::new(o)).unwrap();
            check(p.taggs().get("CGVA") == Some(&tag) && p.taggs().get("XXXX").is_some_and(Vec::is_empty), "tags");
            check(p.maps().len() == nm.min(16), "number of mipmaps");
            for (i, (m, d)) in p.maps().iter().zip(&datas).enumerate() {
                check(m.data() == d && usize::from(m.width()) == 1000 + i && usize::from(m.height()) == 2000 + i && !m.is_compressed(), "a mipmap of many");
            }
            reach("many");
        }
        // sizes that the format has no room for
        7 => {
            let (w, hh, ok) = [(0, 4, false), (4, 0, false), (1, 1, true), (5, 3, true), (1024, 1, true), (32768, 1, false), (1, 65536, false), (4_194_304, 1, false)][choice(8)];
            let img = image::RgbaImage::new(w, hh);
            let mut out = Vec::new();
            let r = Paa::write(&img, &mut out);
            check(r.is_ok() == ok, "a picture is refused, or written though it has no room");
            if ok {
                let p = Paa::read(Cursor::new(out)).unwrap();
                let m = &p.maps()[0];
                check(p.maps().len() == 1 && u32::from(m.width()) == w && u32::from(m.height()) == hh && !m.is_compressed(), "size");
                let g = m.get_image().to_rgba8();
                check(g.width() == w && g.height() == hh, "size of the picture");
                reach("written");
            } else {
                reach("refused");
            }
        }
        // header of a written texture
        _ => {
            let px: [u8; 4] = [choice(3) as u8 * 100, 7, 8, 255];
            let (w, hh) = (4u32, 4u32);
            let img = image::RgbaImage::from_pixel(w, hh, image::Rgba(px));
            let mut out = Vec::new();
            Paa::write(&img, &mut out).unwrap();
            let p = Paa::read(Cursor::new(out)).unwrap();
            check(*p.format() == PaXType::DXT5, "format of a written texture");
            check(p.taggs().get("CGVA").or(p.taggs().get("AVGC")).map(|v| &v[..]) == Some(&px[..]), "average colour");
            check(p.taggs().get("CXAM").map(|v| &v[..]) == Some(&px[..]), "maximum colour");
            check(p.maps().len() == 1 && u32::from(p.maps()[0].width()) == w && u32::from(p.maps()[0].height()) == hh, "size");
            reach("written");
        }
    }
}
