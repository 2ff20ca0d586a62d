//! Finding files in a workspace, and including them.
use hemtt_common::config::PDriveOption;
use hemtt_preprocessor::Processor;
use hemtt_workspace::{reporting::WorkspaceFiles, Workspace, WorkspacePath};
use symrt::*;

/// a workspace over these files, discovered
pub fn discovered(files: &[(String, Vec<u8>)]) -> Option<WorkspacePath> {
    let vfs: vfs::VfsPath = vfs::MemoryFS::new().into();
    for (n, d) in files {
        if let Some((dir, _)) = n.rsplit_once('/') {
            vfs.join(dir).unwrap().create_dir_all().unwrap();
        }
        vfs.join(n).unwrap().create_file().unwrap().write_all(d).unwrap();
    }
    Workspace::create(vfs, Vec::new(), None, true, &PDriveOption::Disallow).ok()
}
/// a path from the root without `.` and `..`, above the root is the root
fn normal(dir: &str, path: &str) -> String {
    let mut v: Vec<&str> = if path.starts_with('/') { Vec::new() } else { dir.split('/').filter(|s| !s.is_empty()).collect() };
    for s in path.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            s => v.push(s),
        }
    }
    v.join("/")
}
fn joined(v: &[&str]) -> String {
    v.concat()
}
/// what the documentation says is found
fn reference(files: &[(String, Vec<u8>)], pointers: &[(String, &str)], dir: &str, path: &str) -> Option<String> {
    let there = |p: &str| files.iter().any(|f| f.0 == p).then(|| p.to_string());
    let path = path.replace('\\', "/");
    if path.starts_with('/') {
        if let Some(p) = there(&normal("", &path)) {
            return Some(p);
        }
        let lower = path.to_lowercase();
        let best = pointers.iter().filter(|(p, _)| lower.starts_with(&joined(&["/", p, "/"]))).max_by_key(|(p, _)| p.len());
        let (p, root) = best?;
        return there(&normal(root, &path[p.len() + 2..]));
    }
    there(&normal(dir, &path))
}
const DIRS: [&str; 6] = ["addons/a", "addons/a/s", "addons/b", "include/z/m", "optionals/o", "other/p"];
const PREFIXES: [&str; 6] = ["", "z\\m", "z\\m\\a", "Z\\M\\A\\s", "z\\n", "z\\m\\ab"];
fn tree(dirs: usize, prefixes: usize) -> (Vec<(String, Vec<u8>)>, Vec<(String, &'static str)>, bool) {
    let mut files = Vec::new();
    let mut pointers: Vec<(String, &str)> = Vec::new();
    let mut twice = false;
    let name = ["$PBOPREFIX$", "$prefix$", "PboPrefix.txt"][choice(3)];
    let form = choice(2);
    for (i, d) in DIRS.iter().enumerate() {
        let p = if i < dirs || i == 5 { PREFIXES[choice(prefixes)] } else { "" };
        files.push((joined(&[d, "/f.hpp"]), b"1".to_vec()));
        if p.is_empty() {
            continue;
        }
        let text = if form == 0 { joined(&[p, "\n"]) } else { joined(&["version=1.0\nPrefix = ", p, "\nx=y\n"]) };
        files.push((joined(&[d, "/", name]), text.into_bytes()));
        // prefix files elsewhere are not looked at
        if i < 5 {
            let p = p.to_lowercase().replace('\\', "/");
            twice |= pointers.iter().any(|(q, _)| *q == p);
            pointers.push((p, *d));
        }
    }
    for f in ["f.hpp", "addons/a/s/g.hpp", "addons/a/config.cpp", "addons/b/Config.cpp", "other/p/config.cpp", "addons/b/.hemtt/config.cpp", "optionals/o/x/mission.sqm"] {
        files.push((f.to_string(), b"1".to_vec()));
    }
    if flip() {
        // a folder of the workspace is in front of a prefix
        files.push(("z/m/f.hpp".to_string(), b"1".to_vec()));
    }
    (files, pointers, twice)
}
const PATHS: [&str; 20] = [
    "f.hpp", "s/f.hpp", "s\\g.hpp", "../b/f.hpp", "..\\..\\f.hpp", "../../../f.hpp", "g.hpp", "./f.hpp", "/f.hpp", "/addons/b/f.hpp", "\\z\\m\\f.hpp", "\\z\\m\\a\\f.hpp", "/Z/m/A/s/g.hpp", "\\z\\m\\a\\s\\f.hpp",
    "\\z\\n\\f.hpp", "/z/mx/f.hpp", "\\z\\m\\ab\\f.hpp", "/z/m/a/../f.hpp", "/z/m/../m/f.hpp", "z/m/f.hpp",
];
fn strip(p: &WorkspacePath) -> String {
    p.as_str().trim_start_matches('/').to_string()
}
/// where files are found, and what they are called
fn locate(dirs: usize, prefixes: usize) {
    let (files, pointers, twice) = tree(dirs, prefixes);
    let Some(w) = discovered(&files) else {
        reach("duplicate");
        check(twice, "a workspace without duplicate prefixes is rejected");
        return;
    };
    check(!twice, "two addons have the same prefix");
    reach("workspace");
    let mut addons: Vec<String> = w.addons().iter().map(|p| p.as_str().trim_start_matches('/').to_string()).collect();
    addons.sort();
    check(addons == ["addons/a/config.cpp", "addons/b/Config.cpp"], "other addons are found");
    check(w.missions().len() == 1 && w.missions()[0].as_str().ends_with("optionals/o/x/mission.sqm"), "other missions are found");
    let at = w.join("addons/a/config.cpp").unwrap();
    for path in PATHS {
        let got = at.locate(path).ok().flatten().map(|r| strip(&r.path));
        check(got == reference(&files, &pointers, "addons/a", path), "another file is found");
    }
    for (name, _) in &files {
        let p = w.join(name).unwrap();
        let best = pointers.iter().filter(|(_, d)| name.starts_with(&joined(&[d, "/"]))).max_by_key(|(_, d)| d.len());
        let want = match best {
            Some((p, d)) => joined(&["/", p, &name[d.len()..]]),
            None => joined(&["/", name]),
        };
        check(p.as_virtual_str() == want, "the path in the game is another one");
        // and that path leads back, unless a folder is in front
        if !files.iter().any(|f| want[1..] == f.0) || best.is_none() {
            let back = at.locate(&want).ok().flatten().map(|r| strip(&r.path));
            let shadowed = best.is_some_and(|b| pointers.iter().any(|p| p.0.len() > b.0.len() && want[1..].starts_with(&joined(&[&p.0, "/"]))));
            check(shadowed || back.as_deref() == Some(&name[..]), "the path in the game does not lead back");
        }
    }
}
/// any relative or absolute path
fn any_path(n: usize) {
    let mut files: Vec<(String, Vec<u8>)> = ["a/a", "a/b/a", "b", "ab", "a/b/b"].iter().map(|f| (f.to_string(), Vec::new())).collect();
    files.push(("addons/x/$PBOPREFIX$".to_string(), b"ba".to_vec()));
    files.push(("addons/x/a".to_string(), Vec::new()));
    let pointers = vec![("ba".to_string(), "addons/x")];
    let Some(w) = discovered(&files) else { fail("a workspace is rejected") };
    let t = text(b"ab./\\B", len(1, n));
    let t = std::str::from_utf8(&t).unwrap();
    let from = ["c", "a/b/c"][choice(2)];
    let at = w.join(from).unwrap();
    let want = reference(&files, &pointers, from.rsplit_once('/').map_or("", |d| d.0), t);
    match at.locate(t).ok().flatten() {
        Some(r) => {
            reach("found");
            if r.path.is_file().unwrap() {
                check(want == Some(strip(&r.path)), "another file is found");
            }
        }
        None => {
            reach("none");
            let s = t.replace('\\', "/");
            check(want.is_none() || s.contains("//") || s.ends_with('/'), "a file is not found");
        }
    }
}

fn words(s: &str) -> Vec<String> {
    s.split_whitespace().map(str::to_string).collect()
}
/// files including each other
fn includes(n: usize) {
    let mut files: Vec<(String, Vec<u8>)> = vec![("addons/b/$PBOPREFIX$".to_string(), b"z\\m\\b".to_vec())];
    let outer = ["x.hpp", "s/x.hpp", "s\\x.hpp", "../b/x.hpp", "\\z\\m\\b\\x.hpp", "/addons/b/x.hpp", "\\Z\\m\\B\\x.hpp", "no.hpp", "y.hpp"];
    let inner = ["", "y.hpp", "../y.hpp", "\\z\\m\\b\\y.hpp", "s/y.hpp", "no.hpp"];
    let second = choice(inner.len());
    for d in ["addons/a", "addons/a/s", "addons/b"] {
        let w = d.replace('/', "");
        let mut x = joined(&["x", &w, " A\n#define B ", &w, "b\n"]);
        if second > 0 {
            x.push_str(&joined(&["#include <", inner[second], ">\n"]));
        }
        x.push_str(&joined(&["end", &w, "\n"]));
        files.push((joined(&[d, "/x.hpp"]), x.into_bytes()));
        files.push((joined(&[d, "/y.hpp"]), joined(&["y", &w, " B\n#undef B\n"]).into_bytes()));
    }
    let pointers = vec![("z/m/b".to_string(), "addons/b")];
    let mut src = "first\n#define A one\n".to_string();
    let mut want = words("first");
    let mut b: Option<String> = None;
    let mut lost = false;
    for i in 0..n {
        let k = choice(outer.len());
        let q = choice(2);
        src.push_str(&joined(&["#include ", ["\"", "<"][q], outer[k], ["\"\n", ">\n"][q]]));
        // what the file is and does
        let todo = |dir: &str, p: &str, want: &mut Vec<String>, b: &mut Option<String>| -> Option<String> {
            let f = reference(&files, &pointers, dir, p)?;
            let (d, n) = f.rsplit_once('/').unwrap();
            let w = d.replace('/', "");
            if n == "y.hpp" {
                want.push(joined(&["y", &w]));
                want.push(b.take().unwrap_or_else(|| "B".to_string()));
                return Some("y".to_string());
            }
            want.extend([joined(&["x", &w]), "one".to_string()]);
            *b = Some(joined(&[&w, "b"]));
            Some(d.to_string())
        };
        match todo("addons/a", outer[k], &mut want, &mut b) {
            None => lost = true,
            Some(d) if d == "y" => {}
            Some(d) => {
                if second > 0 && todo(&d, inner[second], &mut want, &mut b).is_none() {
                    lost = true;
                }
                want.push(joined(&["end", &d.replace('/', "")]));
            }
        }
        if lost {
            break;
        }
        src.push_str("B\n");
        want.push(b.clone().unwrap_or_else(|| "B".to_string()));
        let _ = i;
    }
    src.push_str("last\n");
    want.push("last".to_string());
    files.push(("addons/a/config.cpp".to_string(), src.into_bytes()));
    let Some(w) = discovered(&files) else { fail("a workspace is rejected") };
    match Processor::run(&w.join("addons/a/config.cpp").unwrap()) {
        Ok(p) => {
            reach("included");
            check(!lost, "a file that is not there is included");
            check(words(p.as_str()) == want, "other text is included");
        }
        Err((_, e)) => {
            reach("lost");
            check(lost, "an include of a file that is there is rejected");
            check(e.get_code().is_some_and(|c| c.ident() == "PE12"), "a missing include is another error");
        }
    }
}
/// warnings of padded arguments, suppressed or not
fn pragmas(n: usize, kinds: usize) {
    const L: u8 = 1;
    const F: u8 = 2;
    const C: u8 = 3;
    let mut src = [b"#define G(a) a\n#define ARR_1(a) a\n".to_vec(), Vec::new()];
    let mut want: Vec<(usize, usize)> = Vec::new();
    // scopes of the suppression and the flag
    let mut state = [0u8; 2];
    let mut included = false;
    let lines = |f: usize, n: usize, src: &mut [Vec<u8>; 2], state: &mut [u8; 2], want: &mut Vec<(usize, usize)>| -> bool {
        for _ in 0..n {
            let k = choice(if f == 0 { kinds } else { 4 });
            match k {
                0 | 1 => {
                    let (t, off) = if k == 0 { (&b"G( 1)"[..], 2) } else { (&b"ARR_1(1 )"[..], 7) };
                    if state[0] == 0 && (k == 0 || state[1] == 0) {
                        want.push((f, src[f].len() + off));
                    }
                    src[f].extend(t);
                    src[f].push(b'\n');
                    state.iter_mut().for_each(|s| if *s == L { *s = 0 });
                }
                2 | 3 => {
                    src[f].extend([&b"#pragma hemtt suppress pw3_padded_arg"[..], b"#pragma hemtt flag pw3_ignore_format"][k - 2]);
                    // the whole config only from its own file
                    let c = choice(if f == 0 { 4 } else { 3 });
                    src[f].extend([&b""[..], b" line", b" file", b" config"][c]);
                    src[f].push(b'\n');
                    let s = [L, L, F, C][c];
                    state[k - 2] = state[k - 2].max(s);
                }
                4 => {
                    src[f].extend(b"#include \"i.hpp\"\n");
                    return true;
                }
                5 => {
                    src[f].extend(b"G(1) ARR_1((1 ))\n");
                    state.iter_mut().for_each(|s| if *s == L { *s = 0 });
                }
                7 => {
                    // not read: the next line all the same, but no pragma
                    let text = flip();
                    src[f].extend([&b"#ifdef NO\n#pragma hemtt suppress pw3_padded_arg config\n#endif\n"[..], b"#ifdef NO\nG( 1)\n#else\n#endif\n"][usize::from(text)]);
                    if text {
                        state.iter_mut().for_each(|s| if *s == L { *s = 0 });
                    }
                }
                _ => {
                    // within a macro call and twice
                    src[f].extend(b"G(G( 2))\n");
                    if state[0] == 0 {
                        want.push((f, src[f].len() - 5));
                    }
                    state.iter_mut().for_each(|s| if *s == L { *s = 0 });
                }
            }
        }
        false
    };
    // what is in force in the end
    let end = |f: usize, src: &mut [Vec<u8>; 2], state: &mut [u8; 2], want: &mut Vec<(usize, usize)>| {
        for (t, off) in [(&b"G( 1)\n"[..], 2), (b"ARR_1(1 )\n", 7), (b"G( 1)\n", 2)] {
            if state[0] == 0 && (off == 2 || state[1] == 0) {
                want.push((f, src[f].len() + off));
            }
            src[f].extend(t);
            state.iter_mut().for_each(|s| if *s == L { *s = 0 });
        }
    };
    let mut left = n;
    for _ in 0..n {
        if left == 0 {
            break;
        }
        left -= 1;
        if lines(0, 1, &mut src, &mut state, &mut want) {
            assume(!included);
            included = true;
            let mut inner = state.map(|s| if s == C { C } else { 0 });
            lines(1, param(2), &mut src, &mut inner, &mut want);
            end(1, &mut src, &mut inner, &mut want);
        }
    }
    end(0, &mut src, &mut state, &mut want);
    let files: Vec<(String, Vec<u8>)> = vec![("t.hpp".to_string(), src[0].clone()), ("i.hpp".to_string(), src[1].clone())];
    let Some(w) = discovered(&files) else { fail("a workspace is rejected") };
    let Ok(p) = Processor::run(&w.join("t.hpp").unwrap()) else { fail("a file with pragmas is rejected") };
    reach(if want.is_empty() { "quiet" } else { "warned" });
    let wf = WorkspaceFiles::new();
    let got: Vec<(usize, usize)> = p
        .warnings()
        .iter()
        .map(|c| {
            check(c.ident() == "PW3", "another warning");
            let d = c.diagnostic().unwrap();
            check(!d.to_annotations(&wf).is_empty(), "no annotation");
            (usize::from(d.labels[0].file().as_str().ends_with("i.hpp")), d.labels[0].to_codespan().range.start)
        })
        .collect();
    check(got == want, "other padded arguments are reported");
}
/// `__has_include` is only taken, as false, where the flag says so
fn has_include(n: usize) {
    let mut src = Vec::new();
    let mut want = Vec::new();
    let (mut flag, mut bad, mut asked) = (0, false, false);
    for i in 0..n {
        match choice(3) {
            0 => {
                let c = choice(4);
                src.extend(b"#pragma hemtt flag pe23_ignore_has_include");
                src.extend([&b"\n"[..], b" line\n", b" file\n", b" config\n"][c]);
                flag = flag.max([1, 1, 2, 3][c]);
            }
            1 => {
                src.extend(b"#if __has_include(\"a.hpp\")\nyes\n#else\nno\n#endif\n");
                if flag == 0 {
                    bad = true;
                    break;
                }
                asked = true;
                want.push("no".to_string());
                if flag == 1 {
                    flag = 0;
                }
            }
            _ => {
                let t = joined(&["t", ["0", "1", "2", "3", "4", "5", "6", "7"][i]]);
                src.extend(t.as_bytes());
                src.push(b'\n');
                want.push(t);
                if flag == 1 {
                    flag = 0;
                }
            }
        }
    }
    let Some(w) = discovered(&[("t.hpp".to_string(), src), ("a.hpp".to_string(), Vec::new())]) else { fail("a workspace is rejected") };
    match Processor::run(&w.join("t.hpp").unwrap()) {
        Ok(p) => {
            reach("read");
            check(!bad, "__has_include is accepted without the flag");
            check(words(p.as_str()) == want, "the wrong branch of __has_include is read");
            check(p.no_rapify() == asked, "a config is binarised exactly if its includes are known");
        }
        Err((_, e)) => {
            reach("refused");
            check(bad, "a file with flags is rejected");
            check(e.get_code().is_some_and(|c| c.ident() == "PE23"), "__has_include is another error");
        }
    }
}
pub fn run(h: u32) {
    match h {
        0 => locate(param(0), param(1)),
        1 => any_path(param(0)),
        2 => includes(param(0)),
        3 => pragmas(param(0), param(1)),
        5 => paths(param(0)),
        _ => has_include(param(0)),
    }
}

/// the parts of a path, and other paths made from it
fn paths(n: usize) {
    let name = text(b"aB.-", len(1, n));
    assume(name != b"." && name != b"..");
    let name = String::from_utf8(name).unwrap();
    let dir = ["", "d", "d/e.f"][choice(3)];
    let path = if dir.is_empty() { name.clone() } else { joined(&[dir, "/", &name]) };
    let files = vec![(path.clone(), b"some\r\ntext".to_vec()), ("d/e.f/x/y.z".to_string(), b"yz".to_vec()), ("q/r".to_string(), Vec::new())];
    let w = Workspace::builder().memory().finish(None, false, &PDriveOption::Disallow).unwrap();
    for (f, d) in &files {
        if let Some((dir, _)) = f.rsplit_once('/') {
            w.vfs().join(dir).unwrap().create_dir_all().unwrap();
        }
        w.join(f).unwrap().create_file().unwrap().write_all(d).unwrap();
    }
    let p = w.join(&path).unwrap();
    let full = joined(&["/", &path]);
    let up = if dir.is_empty() { String::new() } else { joined(&["/", dir]) };
    check(p.as_str() == full && p.to_string() == full, "a path has another text");
    check(p.filename() == name, "a file has another name");
    check(p.parent().as_str() == up, "a file is in another folder");
    check(p.parent().join(&name).unwrap() == p, "a file is not in its folder");
    // what follows the last dot, if there is something before it
    let ext = name.rsplit_once('.').filter(|(b, _)| !b.is_empty()).map(|(_, e)| e.to_string());
    check(p.extension() == ext, "a file has another extension");
    let base = name.rsplit_once('.').map_or(&name[..], |(b, _)| b);
    for e in ["x", "hpp", "a.b"] {
        let o = p.with_extension(e).unwrap();
        check(o.as_str() == joined(&[&up, "/", base, ".", e]), "changing an extension gives another path");
        check(o.exists().unwrap() == files.iter().any(|f| joined(&["/", &f.0]) == o.as_str()), "a file that is not there exists");
    }
    check(p.exists().unwrap() && p.is_file().unwrap() && !p.is_dir().unwrap(), "a file is no file");
    check(p.parent().is_dir().unwrap() && !p.parent().is_file().unwrap(), "a folder is no folder");
    check(p.read_to_string().unwrap() == "some\ntext", "a file has other contents");
    let mut raw = Vec::new();
    p.open_file().unwrap().read_to_end(&mut raw).unwrap();
    check(raw == b"some\r\ntext" && p.metadata().unwrap().len == 10, "a file has other contents");
    let mut all: Vec<String> = w.walk_dir().unwrap().iter().filter(|p| p.is_file().unwrap()).map(|p| p.as_str()[1..].to_string()).collect();
    all.sort();
    let mut want: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
    want.sort();
    check(all == want, "other files are found in the folders");
    let here: Vec<String> = p.parent().read_dir().unwrap().iter().map(|p| p.as_str().to_string()).collect();
    check(here.iter().filter(|h| **h == full).count() == 1 && here.iter().all(|h| h.starts_with(&joined(&[&up, "/"])) && !h[up.len() + 1..].contains('/')), "other files are in a folder");
    let d = w.join("new.d").unwrap();
    d.create_dir().unwrap();
    check(d.is_dir().unwrap() && d.join("k").unwrap().as_str() == "/new.d/k", "a folder is not made");
    reach("paths");
}
