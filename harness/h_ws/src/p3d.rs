use hemtt_p3d::{Face, Point, SearchCache, Vertex, LOD, P3D};
use std::io::{Cursor, Write};
use symrt::*;

fn f() -> f32 {
    f32::from_bits(u32())
}
fn s(n: usize) -> String {
    String::from_utf8((0..n).map(|_| range(1, 0x7f)).collect()).unwrap()
}
/// one symbolic float or integer per vertex, the rest constants that differ per place
fn vertex(k: u32, sym: bool) -> Vertex {
    Vertex { point_index: if sym { u32() } else { k }, normal_index: k + 1, uv: (k as f32, if sym { f() } else { 0.5 }) }
}
fn model(nl: usize) -> P3D {
    let mut lods = Vec::new();
    for l in 0..nl {
        let np = choice(2 + param(0));
        let nn = choice(2);
        let nf = choice(2 + param(0));
        let mut lod = LOD { version_major: 28, version_minor: u32(), resolution: f(), points: vec![], face_normals: vec![], faces: vec![], taggs: Default::default() };
        for i in 0..np {
            lod.points.push(Point { coords: (i as f32, if i == 0 { f() } else { 2.0 }, 1.5), flags: if i == 0 { u32() } else { 3 } });
        }
        for i in 0..nn {
            lod.face_normals.push((i as f32, 0.25, f()));
        }
        for i in 0..nf {
            let nv = 3 + choice(2);
            let vertices = (0..nv).map(|k| vertex((l * 16 + i * 4 + k) as u32, i == 0 && k + 1 == nv)).collect();
            lod.faces.push(Face { vertices, flags: u32(), texture: s(len(0, 1)), material: s(len(0, 1)) });
        }
        for i in 0..choice(3) {
            lod.taggs.insert(["#Mass#", "x"][i].to_string(), bytes(len(0, 1)).into_boxed_slice());
        }
        lods.push(lod);
    }
    P3D { version: u32(), lods }
}
fn put(o: &mut Vec<u8>, v: u32) {
    o.extend(v.to_le_bytes());
}
/// reference serialiser, from the MLOD format
fn serialise(p: &P3D) -> Vec<u8> {
    let mut o = b"MLOD".to_vec();
    put(&mut o, p.version);
    put(&mut o, p.lods.len() as u32);
    for l in &p.lods {
        o.extend(b"P3DM");
        put(&mut o, l.version_major);
        put(&mut o, l.version_minor);
        put(&mut o, l.points.len() as u32);
        put(&mut o, l.face_normals.len() as u32);
        put(&mut o, l.faces.len() as u32);
        put(&mut o, 0);
        for x in &l.points {
            for c in [x.coords.0, x.coords.1, x.coords.2] {
                put(&mut o, c.to_bits());
            }
            put(&mut o, x.flags);
        }
        for x in &l.face_normals {
            for c in [x.0, x.1, x.2] {
                put(&mut o, c.to_bits());
            }
        }
        for x in &l.faces {
            put(&mut o, x.vertices.len() as u32);
            for k in 0..4 {
                match x.vertices.get(k) {
                    Some(v) => {
                        put(&mut o, v.point_index);
                        put(&mut o, v.normal_index);
                        put(&mut o, v.uv.0.to_bits());
                        put(&mut o, v.uv.1.to_bits());
                    }
                    None => o.extend([0u8; 16]),
                }
            }
            put(&mut o, x.flags);
            o.extend(x.texture.as_bytes());
            o.push(0);
            o.extend(x.material.as_bytes());
            o.push(0);
        }
        o.extend(b"TAGG");
        for (n, d) in &l.taggs {
            o.push(1);
            o.extend(n.as_bytes());
            o.push(0);
            put(&mut o, d.len() as u32);
            o.extend(&d[..]);
        }
        o.extend(b"\x01#EndOfFile#\0");
        put(&mut o, 0);
        put(&mut o, l.resolution.to_bits());
    }
    o
}
/// a writer that fails once `left` bytes are taken, by an error or by taking nothing
struct Failing {
    left: usize,
    zero: bool,
    taken: usize,
    chunk: usize,
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left).min(self.chunk);
        if n == 0 && !b.is_empty() {
            return if self.zero { Ok(0) } else { Err(std::io::ErrorKind::Other.into()) };
        }
        self.left -= n;
        self.taken += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn run(h: u32) {
    match h {
        // write gives the format; read gives it back
        0 => {
            let nl = choice(2 + param(1));
            let p = model(nl);
            let want = serialise(&p);
            let mut out = Vec::new();
            p.write(&mut out).unwrap();
            obs(&out);
            check(out == want, "written model differs from the format");
            let q = P3D::read(&mut Cursor::new(out)).unwrap();
            check(serialise(&q) == want, "model read back differs");
            let mut again = Vec::new();
            q.write(&mut again).unwrap();
            check(again == want, "model written again differs");
            reach("roundtrip");
        }
        // a write fault at any byte is reported, and a success means that everything was written
        1 => {
            let p = P3D { version: 257, lods: vec![LOD { version_major: 28, version_minor: 256, resolution: 1.0, points: vec![Point::new()], face_normals: vec![], faces: vec![], taggs: Default::default() }] };
            let want = serialise(&p);
            // the fault is at one of all places, or behind the end
            let cut = len(0, want.len() + 1);
            let chunk = [1usize, 7, 4096][choice(3)];
            let mut w = Failing { left: cut, zero: flip(), taken: 0, chunk };
            let ok = p.write(&mut w).is_ok();
            check(ok == (cut >= want.len()), "a lost write is not reported, or a complete one is");
            check(!ok || w.taken == want.len(), "reported success without writing everything");
            reach(if ok { "written" } else { "failed" });
        }
        // arbitrary bytes
        2 => {
            let mut b = Vec::new();
            if flip() {
                b.extend(b"MLOD");
                b.extend(bytes(len(0, param(0))));
            } else {
                b.extend(bytes(len(0, 6)));
            }
            match P3D::read(&mut Cursor::new(b)) {
                Ok(p) => {
                    obs_u(p.lods.len() as u64);
                    reach("ok");
                }
                Err(_) => reach("err"),
            }
        }
        // arbitrary counts and tag sizes in front of little data
        3 => {
            let mut b = b"MLOD\x01\x01\0\0".to_vec();
            put(&mut b, 1);
            b.extend(b"P3DM");
            b.extend([28, 0, 0, 0, 0, 1, 0, 0]);
            let which = choice(5);
            let v = u32();
            for i in 0..3 {
                put(&mut b, if i == which { v } else { 0 });
            }
            put(&mut b, 0);
            b.extend(b"TAGG");
            b.extend(b"\x01a\0");
            put(&mut b, if which == 3 { v } else { 0 });
            b.extend(b"\x01#EndOfFile#\0");
            put(&mut b, 0);
            put(&mut b, 0);
            if which == 4 {
                b[8..12].copy_from_slice(&v.to_le_bytes());
            }
            match P3D::read(&mut Cursor::new(b)) {
                Ok(p) => {
                    check(which == 3 || v == [0, 0, 0, 0, p.lods.len() as u32][which], "accepted more than is there");
                    reach("ok");
                }
                Err(_) => reach("err"),
            }
        }
        // a face with any vertex count
        4 => {
            let mut b = Vec::new();
            let v = u32();
            put(&mut b, v);
            b.extend(bytes(2));
            b.extend([0u8; 80]);
            match Face::read(&mut Cursor::new(b)) {
                Ok(x) => {
                    check((v == 3 || v == 4) && x.vertices.len() == v as usize, "vertex count");
                    reach("ok");
                }
                Err(_) => {
                    check(v != 3 && v != 4, "valid face rejected");
                    reach("err");
                }
            }
        }
        // every strict prefix of a model is an error
        5 => {
            let p = model(1);
            let b = serialise(&p);
            // places around every field of the tail, and a symbolic one in the front part
            let cut = choice(param(2).min(b.len()));
            let n = b.len() - 1 - cut;
            check(P3D::read(&mut Cursor::new(b[..n].to_vec())).is_err(), "truncated model accepted");
            reach("cut");
        }
        // many of everything
        7 => {
            let n = [17usize, 300][choice(2)];
            let mut lods: Vec<LOD> = (0..if n == 17 { 17 } else { 2 })
                .map(|l| LOD {
                    version_major: 28,
                    version_minor: 256,
                    resolution: l as f32,
                    points: (0..n).map(|i| Point { coords: (i as f32, 0.5, -1.0), flags: i as u32 * 65_537 }).collect(),
                    face_normals: (0..n + 1).map(|i| (1.0, i as f32, 0.0)).collect(),
                    faces: (0..n + 2)
                        .map(|i| Face { vertices: (0..3 + i as u32 % 2).map(|k| vertex(i as u32 * 300 + k, false)).collect(), flags: 1 << (i % 32), texture: "t".repeat(i % 270), material: "m".repeat(270 - i % 270) })
                        .collect(),
                    taggs: (0..n).map(|i| (format!("tag{i}{}", "x".repeat(i)), vec![i as u8; i].into_boxed_slice())).collect(),
                })
                .collect();
            let mut d = vec![5u8; 70_000];
            d[65_536] = u8();
            lods[1].taggs.insert("big".into(), d.into_boxed_slice());
            let p = P3D { version: 257, lods };
            let want = serialise(&p);
            let mut out = Vec::new();
            p.write(&mut out).unwrap();
            check(out == want, "written large model differs from the format");
            let q = P3D::read(&mut Cursor::new(out)).unwrap();
            check(serialise(&q) == want, "large model read back differs");
            reach("many");
        }
        // faces that the format has no room for
        8 => {
            let n = choice(7);
            let mut p = P3D { version: 257, lods: vec![LOD { version_major: 28, version_minor: 256, resolution: f(), points: vec![], face_normals: vec![], faces: vec![], taggs: Default::default() }] };
            p.lods[0].faces.push(Face { vertices: (0..n).map(|k| vertex(k as u32, k == 1)).collect(), flags: u32(), texture: s(1), material: s(0) });
            let mut out = Vec::new();
            let r = p.write(&mut out);
            if n == 3 || n == 4 {
                check(r.is_ok() && out == serialise(&p), "a face of three or four vertices is written wrongly");
                reach("written");
            } else {
                check(r.is_err(), "a face that is not read again is written");
                reach("refused");
            }
        }
        // missing textures and materials
        _ => {
            let w = crate::pp::workspace(&[("a.paa", b"1"), ("d/b.tga", b"1"), ("m.rvmat", b"1"), ("c.paa/b.tga", b"1")]);
            let tex = ["", "#(argb)", "a.paa", "\\a.paa", "\\a.tga", "a.png", "d\\b.paa", "d\\b.tga", "d\\b.png", "\\d\\c.paa", "x.jpg", "d\\b.PAA", "a.Tga", "D\\c.PNG", "c.paa\\b.paa", "x.paa", "paa", "A.paa"];
            // present: stored as named, or as the source or converted form
            let tex_ok = [true, true, true, true, true, true, true, true, false, false, false, true, true, false, true, false, false, false];
            // a material is there only as it is named
            let mat = ["", "m.rvmat", "\\m.rvmat", "n.rvmat", "\\d\\m.rvmat", "a.tga", "d\\b.paa", "d\\b.tga"];
            let mat_ok = [true, true, true, false, false, false, false, true];
            let (t1, t2, m1) = (choice(tex.len()), choice(tex.len()), choice(mat.len()));
            let face = |t: usize, m: usize| Face { vertices: vec![], flags: 0, texture: tex[t].into(), material: mat[m].into() };
            let p = P3D { version: 1, lods: vec![LOD { version_major: 28, version_minor: 256, resolution: 1.0, points: vec![], face_normals: vec![], faces: vec![face(t1, m1), face(t2, 0)], taggs: Default::default() }] };
            let cache = SearchCache::new();
            for _round in 0..2 {
                let (mt, mm) = p.missing(&w, &cache).unwrap();
                for t in [t1, t2] {
                    let n = format!("\\{}", tex[t].trim_start_matches('\\'));
                    check(mt.contains(&n) == !tex_ok[t], "missing textures");
                }
                check(mt.len() <= 2, "textures reported that are not referenced");
                let n = format!("\\{}", mat[m1].trim_start_matches('\\'));
                check(mm.contains(&n) == !mat_ok[m1] && mm.len() == usize::from(!mat_ok[m1]), "missing materials");
            }
            reach("missing");
        }
    }
}
