//! The project and addon configuration files.
use crate::fs;
use hemtt_common::config::{AddonConfig, LaunchOptions, PDriveOption, ProjectConfig};
use hemtt_common::BISignVersion;
use std::collections::HashMap;
use symrt::{assume, check, choice, fail, flip, of, range, reach};

const HEAD: &str = "name = \"N\"\nprefix = \"abe\"\n";

fn load() -> Result<ProjectConfig, String> {
    ProjectConfig::from_file(&fs::path(".hemtt/project.toml")).map_err(|e| format!("{e:?}"))
}
fn project(text: &str) {
    fs::file(".hemtt/project.toml", text.as_bytes());
}
fn good(text: &str) -> ProjectConfig {
    project(text);
    match load() {
        Ok(c) => c,
        Err(_) => fail("a valid project file is rejected"),
    }
}
fn digit() -> char {
    range(b'0', b'9') as char
}
fn val(c: char) -> u32 {
    c as u32 - 48
}

pub fn run(h: u32) {
    symrt::stub_fmt(false);
    fs::reset(0);
    match h {
        0 => version(),
        1 => options(),
        2 => launch(),
        3 => lints(),
        4 => addon(),
        5 => sources(),
        _ => {}
    }
}

fn version() {
    let mut t = format!("{HEAD}[version]\n");
    let mut field = |name: &str, on: bool| -> Option<u32> {
        if !on {
            return None;
        }
        let d = digit();
        t.push_str(name);
        t.push_str(" = ");
        t.push(d);
        t.push('\n');
        Some(val(d))
    };
    let major = field("major", flip());
    let minor = field("minor", flip());
    let patch = field("patch", flip());
    let build = field("build", flip());
    let hash = field("git_hash", flip());
    let path = choice(3);
    match path {
        1 => t.push_str("path = \"addons/x/v.hpp\"\n"),
        2 => t.push_str("path = 'addons\\x\\v.hpp'\n"),
        _ => {}
    }
    project(&t);
    let numbers = major.is_some() || minor.is_some() || patch.is_some();
    let full = major.is_some() && minor.is_some() && patch.is_some();
    let r = load();
    if (numbers && path != 0) || (numbers && !full) {
        reach("rejected");
        check(r.is_err(), "a contradictory or incomplete version is accepted");
        return;
    }
    let Ok(c) = r else { fail("a valid version section is rejected") };
    let v = c.version();
    let file = if path == 0 { "addons/main/script_version.hpp" } else { "addons/x/v.hpp" };
    check(v.path() == file, "the path of the version file is wrong");
    check(v.git_hash() == hash.map_or(Some(8), |h| if h == 0 { None } else { Some(h as u8) }), "the length of the git hash is wrong");
    if v.git_hash().is_some() {
        return;
    }
    // no git hash: the version can be had without a repository
    let present = flip();
    let (a, b) = (digit(), digit());
    if present {
        let text = format!("#define MAJOR 1\n#define MINOR {a}\n#define PATCHLVL {b}\n");
        fs::file(file, text.as_bytes());
    }
    let root = vfs::VfsPath::new(vfs::PhysicalFS::new(fs::ROOT));
    v.invalidate();
    let got = v.get(&root);
    let want = if let (Some(x), Some(y), Some(z)) = (major, minor, patch) {
        reach("defined");
        Some((x, y, z, build))
    } else if present {
        reach("file");
        Some((1, val(a), val(b), None))
    } else {
        None
    };
    match (&got, want) {
        (Ok(g), Some((x, y, z, w))) => {
            check(g.major() == x && g.minor() == y && g.patch() == z, "the version is not the configured one");
            check(g.build() == w, "the build number is not the configured one");
            // later calls give the same version
            match v.get(&root) {
                Ok(again) => check(again == *g, "a second call gives another version"),
                Err(_) => fail("a second call gives no version"),
            }
            // another version once the known one is dropped
            if present && major.is_none() {
                fs::file(file, format!("#define MAJOR 2\n#define MINOR {b}\n#define PATCHLVL {a}\n#define BUILD 7\n").as_bytes());
                v.invalidate();
                match v.get(&root) {
                    Ok(n) => check((n.major(), n.minor(), n.patch(), n.build()) == (2, val(b), val(a), Some(7)), "the version is not that of the changed file"),
                    Err(_) => fail("a changed version file gives no version"),
                }
            }
        }
        (Err(_), None) => reach("none"),
        (Ok(_), None) => fail("a version comes from nowhere"),
        (Err(_), Some(_)) => fail("a defined version is not found"),
    }
}

fn word(n: usize) -> String {
    (0..n).map(|_| match choice(3) {
        0 => '/',
        1 => '.',
        _ => symrt::conc(u64::from(of(b"ab"))) as u8 as char,
    }).collect()
}
fn quoted(l: &[String]) -> String {
    let mut s = String::from("[");
    for x in l {
        s.push('"');
        s.push_str(x);
        s.push_str("\", ");
    }
    s.push(']');
    s
}

fn options() {
    match choice(6) {
        0 => {
            // included and excluded files
            let n = choice(3);
            let mut inc: Vec<String> = (0..n).map(|_| match choice(3) {
                0 => word(2),
                1 => "mod.cpp".to_string(),
                _ => "/LICENSE".to_string(),
            }).collect();
            let exc: Vec<String> = (0..choice(3)).map(|_| word(1)).collect();
            let c = good(&format!("{HEAD}[files]\ninclude = {}\nexclude = {}\n", quoted(&inc), quoted(&exc)));
            check(c.files().exclude() == exc.as_slice(), "the excluded files are not the configured ones");
            let got = c.files().include();
            for i in &mut inc {
                if !i.starts_with('/') {
                    i.insert(0, '/');
                }
            }
            for d in ["/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"] {
                inc.push(d.to_string());
            }
            for (k, g) in got.iter().enumerate() {
                check(inc.contains(g), "a file is included that was not asked for");
                check(!got[..k].contains(g), "a file is included twice");
            }
            for i in &inc {
                check(got.contains(i), "a file that should be included is not");
            }
            reach("files");
        }
        1 => {
            let auth = flip();
            let d = digit();
            let set = flip();
            let mut t = format!("{HEAD}[signing]\n");
            if set {
                t.push_str(&format!("version = {d}\n"));
            }
            if auth {
                t.push_str("authority = \"me\"\n");
            }
            project(&t);
            let r = load();
            if set && d != '2' && d != '3' {
                check(r.is_err(), "an unknown signature version is accepted");
                return;
            }
            let Ok(c) = r else { fail("a valid signing section is rejected") };
            let want = if set && d == '2' { BISignVersion::V2 } else { BISignVersion::V3 };
            check(c.signing().version() == want, "the signature version is wrong");
            check(c.signing().authority().map(String::as_str) == auth.then_some("me"), "the authority is wrong");
            reach("signing");
        }
        2 => {
            let (a, b) = (choice(5), choice(5));
            let opt = choice(3);
            let mut t = String::from(HEAD);
            let word = |k: usize| ["", "disallow", "Ignore", "require", "often"][k];
            if a > 0 {
                t.push_str(&format!("[hemtt.check]\npdrive = \"{}\"\n", word(a)));
            }
            t.push_str("[hemtt.build]\n");
            if b > 0 {
                t.push_str(&format!("pdrive = \"{}\"\n", word(b)));
            }
            if opt > 0 {
                t.push_str(&format!("optional_mod_folders = {}\n", opt == 1));
            }
            project(&t);
            let r = load();
            if a == 4 || b == 4 {
                check(r.is_err(), "an unknown P drive option is accepted");
                return;
            }
            let Ok(c) = r else { fail("valid check and build sections are rejected") };
            let want = |k: usize| match k {
                1 => PDriveOption::Disallow,
                3 => PDriveOption::Require,
                _ => PDriveOption::Ignore,
            };
            check(*c.hemtt().check().pdrive() == want(a), "the P drive option of check is wrong");
            check(*c.hemtt().build().pdrive() == want(b), "the P drive option of build is wrong");
            check(c.hemtt().build().optional_mod_folders() == (opt != 2), "optional_mod_folders is wrong");
            reach("pdrive");
        }
        3 => {
            let (s, a, f, d) = (choice(3), choice(3), flip(), flip());
            let mut t = format!("{HEAD}[hemtt.release]\n");
            if s > 0 {
                t.push_str(&format!("sign = {}\n", s == 1));
            }
            if a > 0 {
                t.push_str(&format!("archive = {}\n", a == 1));
            }
            if f {
                t.push_str("folder = \"out\"\n");
            }
            let w = word(2);
            if d {
                t.push_str(&format!("[hemtt.dev]\nexclude = [\"{w}\"]\n"));
            }
            let c = good(&t);
            let r = c.hemtt().release();
            check(r.sign() == (s != 2), "sign is wrong");
            check(r.archive() == (a != 2), "archive is wrong");
            check(r.folder() == if f { "out" } else { "abe" }, "the folder of the release is wrong");
            check(c.hemtt().dev().exclude() == if d { vec![w] } else { vec![] }.as_slice(), "the files excluded by dev are wrong");
            reach("release");
        }
        4 => {
            let m = ["", "z", "x\\y", "Z y", "\u{e9}/"][choice(5)];
            let n = choice(3);
            let v = word(1);
            let mut t = String::new();
            if !m.is_empty() {
                t.push_str(&format!("mainprefix = '{m}'\n"));
            }
            t.push_str(HEAD);
            t.push_str("[properties]\n");
            for k in 0..n {
                t.push_str(&format!("p{k} = \"{v}{k}\"\n"));
            }
            let c = good(&t);
            check(c.name() == "N" && c.prefix() == "abe", "name or prefix is wrong");
            check(c.mainprefix().map(String::as_str) == (!m.is_empty()).then_some(m), "the main prefix is wrong");
            check(c.properties().len() == n, "the number of properties is wrong");
            for k in 0..n {
                check(c.properties().get(&format!("p{k}")) == Some(&format!("{v}{k}")), "a property is wrong");
            }
            reach("properties");
        }
        _ => {
            // name and prefix are required, the prefix may not be empty
            let k = choice(5);
            project(match k {
                0 => "name = \"N\"\nprefix = \"\"\n",
                1 => "name = \"N\"\n",
                2 => "prefix = \"abe\"\n",
                3 => "name = \"N\"\nprefix = \"abe\"\nversion = 3\n",
                _ => "",
            });
            check(load().is_err(), "a project file without its required values is accepted");
            reach("required");
        }
    }
}

#[derive(Clone, Default)]
struct Preset {
    extends: Option<usize>,
    workshop: Vec<String>,
    dlc: Option<&'static str>,
    parameters: Vec<String>,
    presets: Vec<String>,
    optionals: Vec<String>,
    mission: Option<String>,
    executable: Option<usize>,
    instances: Option<u32>,
    binarize: Option<bool>,
    file_patching: Option<bool>,
    rapify: Option<bool>,
}
const NAMES: [&str; 4] = ["a", "b", "c", "none"];

fn item() -> String {
    // sorting is what is done with these: not symbolic
    ["1", "2"][choice(2)].to_string()
}
/// presets that extend each other
fn launch() {
    let n = symrt::param(0);
    let what = choice(5);
    let file = flip();
    let mut ps: Vec<Preset> = Vec::new();
    for _ in 0..n {
        let mut p = Preset { extends: match choice(n + 2) { 0 => None, k if k == n + 1 => Some(3), k => Some(k - 1) }, ..Preset::default() };
        match what {
            0 => p.workshop = (0..choice(3)).map(|_| item()).collect(),
            1 => {
                p.dlc = [None, Some("Contact"), Some("s.o.g. prairie fire"), Some("1681170")][choice(4)];
                p.executable = [None, Some(0), Some(1), Some(2)][choice(4)];
            }
            2 => {
                p.mission = flip().then(|| digit().to_string());
                p.instances = [None, Some(2), Some(3)][choice(3)];
            }
            3 => {
                p.presets = (0..choice(2)).map(|_| item()).collect();
                p.optionals = (0..choice(2)).map(|_| item()).collect();
            }
            _ => {
                p.binarize = [None, Some(false), Some(true)][choice(3)];
                if n < 3 {
                    p.file_patching = [None, Some(false), Some(true)][choice(3)];
                    p.rapify = [None, Some(false), Some(true)][choice(3)];
                }
            }
        }
        if what == 0 && n < 3 && flip() {
            p.parameters = vec![item()];
        }
        ps.push(p);
    }
    let mut t = String::new();
    for (k, p) in ps.iter().enumerate() {
        t.push_str(&if file { format!("[{}]\n", NAMES[k]) } else { format!("[hemtt.launch.{}]\n", NAMES[k]) });
        if let Some(e) = p.extends {
            t.push_str(&format!("extends = \"{}\"\n", NAMES[e]));
        }
        if !p.workshop.is_empty() {
            t.push_str(&format!("workshop = {}\n", quoted(&p.workshop)));
        }
        if !p.parameters.is_empty() {
            t.push_str(&format!("parameters = {}\n", quoted(&p.parameters)));
        }
        if !p.presets.is_empty() {
            t.push_str(&format!("presets = {}\n", quoted(&p.presets)));
        }
        if !p.optionals.is_empty() {
            t.push_str(&format!("optionals = {}\n", quoted(&p.optionals)));
        }
        if let Some(d) = p.dlc {
            t.push_str(&format!("dlc = [\"{d}\"]\n"));
        }
        if let Some(e) = p.executable {
            t.push_str(&format!("executable = \"{}\"\n", ["arma3", "x.exe", "y.EXE"][e]));
        }
        if let Some(m) = &p.mission {
            t.push_str(&format!("mission = \"{m}\"\n"));
        }
        if let Some(i) = p.instances {
            t.push_str("instances = ");
            t.push((b'0' + i as u8) as char);
            t.push('\n');
        }
        for (name, v) in [("binarize", p.binarize), ("file_patching", p.file_patching), ("rapify", p.rapify)] {
            if let Some(v) = v {
                t.push_str(&format!("{name} = {v}\n"));
            }
        }
    }
    if file {
        fs::file(".hemtt/launch.toml", t.as_bytes());
        project(HEAD);
    } else {
        project(&format!("{HEAD}{t}"));
    }
    // what every preset stands for
    let mut want: Vec<Option<Vec<usize>>> = Vec::new();
    for k in 0..n {
        let mut chain = vec![k];
        let mut at = k;
        want.push(loop {
            match ps[at].extends {
                None => break Some(chain),
                Some(e) if e >= n || chain.contains(&e) => break None,
                Some(e) => {
                    chain.push(e);
                    at = e;
                }
            }
        });
    }
    let r = load();
    if want.iter().any(Option::is_none) {
        reach("bad chain");
        check(r.is_err(), "a preset that extends nothing or itself is accepted");
        return;
    }
    let Ok(c) = r else { fail("valid launch presets are rejected") };
    let got = c.hemtt().launch();
    check(got.len() == n, "the number of presets is wrong");
    for (k, chain) in want.iter().flatten().enumerate() {
        let Some(g) = got.get(NAMES[k]) else { fail("a preset is lost") };
        let all = |f: &dyn Fn(&Preset) -> Vec<String>| -> Vec<String> { chain.iter().flat_map(|i| f(&ps[*i])).collect() };
        same(g.workshop(), &all(&|p| p.workshop.clone()), "the workshop items of a preset are wrong");
        same(g.parameters(), &all(&|p| p.parameters.clone()), "the parameters of a preset are wrong");
        same(g.presets(), &all(&|p| p.presets.clone()), "the presets of a preset are wrong");
        same(g.optionals(), &all(&|p| p.optionals.clone()), "the optionals of a preset are wrong");
        let dlc: Vec<String> = g.dlc().iter().map(|d| d.to_mod().to_string()).collect();
        same(&dlc, &all(&|p| p.dlc.map(|d| match d { "Contact" => "contact", "1681170" => "ws", _ => "vn" }.to_string()).into_iter().collect()), "the DLCs of a preset are wrong");
        let first = |f: &dyn Fn(&Preset) -> Option<usize>| chain.iter().find_map(|i| f(&ps[*i]));
        check(g.mission() == chain.iter().find_map(|i| ps[*i].mission.as_ref()), "the mission of a preset is wrong");
        check(g.executable() == first(&|p| p.executable).map_or("arma3_x64.exe", |e| ["arma3.exe", "x.exe", "y.EXE"][e]), "the executable of a preset is wrong");
        check(u32::from(g.instances()) == chain.iter().find_map(|i| ps[*i].instances).unwrap_or(1), "the instances of a preset are wrong");
        check(g.binarize() == chain.iter().find_map(|i| ps[*i].binarize).unwrap_or(false), "binarize of a preset is wrong");
        check(g.file_patching() == chain.iter().find_map(|i| ps[*i].file_patching).unwrap_or(true), "file_patching of a preset is wrong");
        check(g.rapify() == chain.iter().find_map(|i| ps[*i].rapify).unwrap_or(true), "rapify of a preset is wrong");
    }
    if n > 1 {
        overlay(got, &ps, &want);
    }
    reach("resolved");
}
/// the same members; none listed twice
fn same(got: &[String], want: &[String], msg: &str) {
    for (k, g) in got.iter().enumerate() {
        check(want.contains(g) && !got[..k].contains(g), msg);
    }
    for w in want {
        check(got.contains(w), msg);
    }
}
/// `hemtt launch a b`: arrays concatenated, single values from the right
fn overlay(got: &HashMap<String, LaunchOptions>, ps: &[Preset], want: &[Option<Vec<usize>>]) {
    let (Some(a), Some(b)) = (got.get("a"), got.get("b")) else { return };
    let o = a.clone().overlay(b.clone());
    let cat = |x: &[String], y: &[String]| x.iter().chain(y).cloned().collect::<Vec<_>>();
    check(o.workshop() == cat(a.workshop(), b.workshop()).as_slice(), "overlaid workshop items are not concatenated");
    check(o.parameters() == cat(a.parameters(), b.parameters()).as_slice(), "overlaid parameters are not concatenated");
    check(o.presets() == cat(a.presets(), b.presets()).as_slice(), "overlaid presets are not concatenated");
    check(o.optionals() == cat(a.optionals(), b.optionals()).as_slice(), "overlaid optionals are not concatenated");
    check(o.dlc().len() == a.dlc().len() + b.dlc().len(), "overlaid DLCs are not concatenated");
    let chain: Vec<usize> = want[1].iter().chain(&want[0]).flatten().copied().collect();
    check(o.mission() == chain.iter().find_map(|i| ps[*i].mission.as_ref()), "the overlaid mission is wrong");
    check(o.binarize() == chain.iter().find_map(|i| ps[*i].binarize).unwrap_or(false), "the overlaid binarize is wrong");
    check(o.file_patching() == chain.iter().find_map(|i| ps[*i].file_patching).unwrap_or(true), "the overlaid file_patching is wrong");
    check(o.rapify() == chain.iter().find_map(|i| ps[*i].rapify).unwrap_or(true), "the overlaid rapify is wrong");
    check(u32::from(o.instances()) == chain.iter().find_map(|i| ps[*i].instances).unwrap_or(1), "the overlaid instances are wrong");
    check(o.executable() == chain.iter().find_map(|i| ps[*i].executable).map_or("arma3_x64.exe", |e| ["arma3.exe", "x.exe", "y.EXE"][e]), "the overlaid executable is wrong");
}

/// where launch presets and lints may be written
fn sources() {
    match choice(2) {
        0 => {
            let (inproj, infile) = (choice(3), choice(3));
            let mut t = String::from(HEAD);
            match inproj {
                1 => t.push_str("[hemtt.launch.default]\nmission = \"p\"\n"),
                // the form of older versions
                2 => t.push_str("[hemtt.launch]\nmission = \"p\"\n"),
                _ => {}
            }
            project(&t);
            match infile {
                1 => fs::file(".hemtt/launch.toml", b"[default]\nmission = \"f\"\n"),
                2 => fs::file(".hemtt/launch.toml", b"[hemtt.launch.default]\nmission = \"f\"\n"),
                _ => {}
            }
            let r = load();
            if infile == 2 || (infile == 1 && inproj > 0) {
                reach("conflict");
                check(r.is_err(), "launch presets in two places or in the wrong form are accepted");
                return;
            }
            let Ok(c) = r else { fail("valid launch presets are rejected") };
            let m = c.hemtt().launch().get("default").and_then(LaunchOptions::mission).map(String::as_str);
            check(m == if infile == 1 { Some("f") } else if inproj > 0 { Some("p") } else { None }, "the launch presets are not those written");
            reach("launch");
        }
        _ => {
            let sect = ["config", "sqf", "stringtables"];
            let inproj = choice(4);
            let infile = choice(5);
            let mut t = String::from(HEAD);
            if inproj > 0 {
                t.push_str(&format!("[lints.{}]\nx = false\n", sect[inproj - 1]));
            }
            project(&t);
            match infile {
                0 => {}
                4 => fs::file(".hemtt/lints.toml", b"[lints.config]\nx = true\n"),
                k => fs::file(".hemtt/lints.toml", format!("[{}]\nx = true\n", sect[k - 1]).as_bytes()),
            }
            let r = load();
            if infile == 4 || (infile > 0 && inproj > 0) {
                reach("lint conflict");
                check(r.is_err(), "lints in two places or in the wrong form are accepted");
                return;
            }
            let Ok(c) = r else { fail("valid lint sections are rejected") };
            let (at, v) = if infile > 0 { (infile, true) } else { (inproj, false) };
            for (k, l) in [(1, c.lints().config()), (2, c.lints().sqf()), (3, c.lints().stringtables())] {
                check(l.get("x").and_then(|l| l.enabled()) == (k == at).then_some(v) && l.len() == usize::from(k == at), "the lints are not those written");
            }
            reach("lints");
        }
    }
}

/// the forms of a lint's configuration
fn lints() {
    let n = 1 + choice(symrt::param(0));
    let infile = flip();
    let mut t = String::new();
    let mut want = Vec::new();
    let sev = |k: usize| ["Help", "Note", "Warning", "Error", "Bug"][k];
    for k in 0..n {
        let name = ["one", "two"][k];
        let s = choice(3);
        let sect = ["config", "sqf", "stringtables"][s];
        let pre = if infile { "" } else { "lints." };
        t.push_str(&format!("[{pre}{sect}.{name}]\n"));
        let (en, se, op) = (choice(3), choice(4), flip());
        if en > 0 {
            t.push_str(&format!("enabled = {}\n", en == 1));
        }
        if se > 0 {
            t.push_str(&format!("severity = \"{}\"\n", sev(se)));
        }
        let d = digit();
        if op {
            t.push_str("options.o = ");
            t.push(d);
            t.push('\n');
        }
        want.push((s, name, [None, Some(true), Some(false)][en], (se > 0).then_some(se), op.then_some(val(d))));
    }
    // the short forms
    let short = choice(3);
    let ss = choice(5);
    if short > 0 {
        t.insert_str(0, &match short {
            1 => format!("[{}sqf]\nshort = {}\n", if infile { "" } else { "lints." }, ss > 2),
            _ => format!("[{}sqf]\nshort = \"{}\"\n", if infile { "" } else { "lints." }, sev(ss)),
        });
        want.push((1, "short", (short == 1).then_some(ss > 2), (short == 2).then_some(ss), None));
    } else {
        assume(ss == 0);
    }
    if infile {
        fs::file(".hemtt/lints.toml", t.as_bytes());
        project(HEAD);
    } else {
        project(&format!("{HEAD}{t}"));
    }
    let Ok(c) = load() else { fail("valid lint sections are rejected") };
    let groups = [c.lints().config(), c.lints().sqf(), c.lints().stringtables()];
    check(groups.iter().map(|g| g.len()).sum::<usize>() == want.len(), "the number of configured lints is wrong");
    for (s, name, en, se, op) in want {
        let Some(l) = groups[s].get(name) else { fail("the configuration of a lint is lost") };
        check(l.enabled() == en, "enabled of a lint is wrong");
        check(l.severity().map(|s| format!("{s:?}")) == se.map(|k| sev(k).to_string()), "the severity of a lint is wrong");
        check(l.option("o").map(|v| format!("{v}")) == op.map(|v| ((b'0' + v as u8) as char).to_string()), "an option of a lint is wrong");
    }
    reach("forms");
}

fn addon() {
    let mut t = String::new();
    let old = choice(4);
    let top = flip();
    let (x, y) = (word(1), word(1));
    // keys of older versions
    if top {
        t.push_str(&format!("no_bin = [\"{x}\"]\nexclude = [\"{y}\"]\n"));
    }
    if old == 1 {
        t.push_str("preprocess = { enabled = false }\n");
    }
    let (re, rx) = (choice(3), flip());
    if old == 2 || old == 0 {
        t.push_str(if old == 2 { "[preprocess]\n" } else { "[rapify]\n" });
        if re > 0 {
            t.push_str(&format!("enabled = {}\n", re == 1));
        }
        if rx {
            t.push_str(&format!("exclude = [\"{y}\"]\n"));
        }
    } else {
        assume(re == 0);
        assume(!rx);
    }
    let (be, bx) = (choice(3), flip());
    t.push_str("[binarize]\n");
    if be > 0 {
        t.push_str(&format!("enabled = {}\n", be == 1));
    }
    if bx {
        t.push_str(&format!("exclude = [\"{y}\", \"{x}\"]\n"));
    }
    let fx = flip();
    if fx {
        t.push_str(&format!("[files]\nexclude = [\"{x}\"]\n"));
    }
    let pr = flip();
    if pr {
        t.push_str(&format!("[properties]\niso = \"{x}\"\n"));
    }
    fs::file("addons/x/addon.toml", t.as_bytes());
    let r = AddonConfig::from_file(&fs::path("addons/x/addon.toml"));
    if old == 1 {
        reach("old form");
        check(r.is_err(), "the inline form of `preprocess` is accepted");
        return;
    }
    let Ok(c) = r else { fail("a valid addon file is rejected") };
    check(c.rapify().enabled() == (re != 2), "rapify.enabled is wrong");
    check(c.binarize().enabled() == (be != 2), "binarize.enabled is wrong");
    let l = |v: Vec<(bool, &String)>| v.into_iter().filter(|v| v.0).map(|v| v.1.clone()).collect::<Vec<_>>();
    check(*c.rapify().exclude() == l(vec![(rx, &y)]), "rapify.exclude is wrong");
    check(*c.binarize().exclude() == l(vec![(bx, &y), (bx, &x), (top, &x)]), "binarize.exclude is wrong");
    check(*c.files().exclude() == l(vec![(fx, &x), (top, &y)]), "files.exclude is wrong");
    check(c.properties().len() == usize::from(pr) && (!pr || c.properties().get("iso") == Some(&x)), "the properties are wrong");
    reach("addon");
}
