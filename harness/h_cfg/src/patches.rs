//! What a config says about the addon it belongs to.
use crate::cfg::process;
use symrt::*;

/// how a version is written, and what it means
const VERSIONS: [(&str, u32, u32); 12] = [
    ("0.1", 0, 10),
    ("1.98", 1, 98),
    ("2.02", 2, 2),
    ("2.1", 2, 10),
    ("2.18", 2, 18),
    ("REQUIRED", 2, 14),
    ("2", 2, 0),
    ("300", 300, 0),
    ("70000", 70000, 0),
    ("3", 3, 0),
    ("2.0", 2, 0),
    ("0.00", 0, 0),
];
struct Gen {
    src: String,
    want: Vec<(String, u32, u32)>,
    names: usize,
    cases: bool,
}
impl Gen {
    fn put(&mut self, t: &str) {
        self.src.push_str(t);
    }
    fn cased(&mut self, t: &str, at: usize) {
        let mut t = t.to_string();
        match if self.cases { choice(4) } else { 0 } {
            0 => {}
            1 => {
                t[..at].make_ascii_uppercase();
                t[at..].make_ascii_lowercase();
            }
            2 => t.make_ascii_uppercase(),
            _ => t.make_ascii_lowercase(),
        }
        self.put(&t);
    }
    fn patch(&mut self, versions: usize) {
        let name = format!("Ad{}", self.names);
        self.names += 1;
        match choice(4) {
            0 => {
                // no class of its own
                self.put(&format!("class {name};\n"));
                return;
            }
            1 => self.put(&format!("class {name} {{ units[] = {{}}; }};\n")),
            k => {
                self.put(&format!("class {name} {{ "));
                if k == 3 {
                    // of something else
                    self.put("class sub { requiredVersion = 9.99; }; requiredAddons[] = {\"requiredVersion\"}; ");
                }
                let (t, major, minor) = VERSIONS[choice(versions)];
                self.cased("requiredVersion", 4);
                self.put(&format!(" = {t}; }};\n"));
                self.want.push((name, major, minor));
                return;
            }
        }
        self.want.push((name, 0, 0));
    }
}
pub fn run(patches: usize, versions: usize) {
    let mut g = Gen { src: "#define REQUIRED 2.14\n#define AD(x) Ad##x\n".into(), want: Vec::new(), names: 0, cases: patches == 1 };
    let around = choice(6);
    g.put(["", "class CfgMods { class A { requiredVersion = 9.98; }; };\n", "requiredVersion = 9.97; class CfgPatches2 { class A { requiredVersion = 9.98; }; };\n", "class CfgPatches;\n", "", ""][around]);
    g.put("class ");
    g.cased("CfgPatches", 6);
    g.put(" {\n");
    for _ in 0..len(0, patches) {
        g.patch(versions);
    }
    g.put("};\n");
    if around == 4 {
        g.put("class CfgWorlds { class CfgPatches { class A { requiredVersion = 9.98; }; }; };");
    }
    if around == 5 {
        g.put("class cfgpatches { class Again { requiredVersion = 2.08; }; };");
        g.want.push(("Again".into(), 2, 8));
    }
    let Some(p) = process(g.src.as_bytes()) else { fail("a config is rejected") };
    let Ok(r) = hemtt_config::parse(None, &p) else { fail("a config is rejected") };
    reach("patches");
    check(r.patches().len() == g.want.len(), "other patches are found");
    for (p, (n, major, minor)) in r.patches().iter().zip(&g.want) {
        check(p.name().as_str() == n, "a patch has another name");
        let v = p.required_version();
        check((v.major(), v.minor(), v.patch(), v.build()) == (*major, *minor, 0, None), "another version is required");
    }
    for q in r.patches() {
        check(p.extract(q.name().span.clone()).to_string() == q.name().as_str(), "the place of a patch is another");
    }
    // the highest of all, where it is asked for first
    let mut best = (0, 0, None);
    for (n, major, minor) in &g.want {
        if (*major, *minor) > (best.0, best.1) {
            best = (*major, *minor, Some(n));
        }
    }
    let (v, patch) = r.required_version();
    check((v.major(), v.minor()) == (best.0, best.1), "the config requires another version");
    check(patch.as_ref().map(|p| p.name().as_str()) == best.2.map(String::as_str), "another patch requires the version");
    check(r.warnings().len() + r.errors().len() <= r.codes().len(), "a finding is shown twice");
    for c in r.codes() {
        let n = usize::from(r.warnings().iter().any(|w| std::sync::Arc::ptr_eq(w, c))) + usize::from(r.errors().iter().any(|w| std::sync::Arc::ptr_eq(w, c)));
        check(n <= 1, "a finding is a warning and an error");
    }
    let whole = r.config().clone();
    check(r.into_config() == whole, "the config is another one");
}
