//! Which lints run, and how severe they are.
use crate::fs;
use hemtt_common::config::{LintConfig, PDriveOption, ProjectConfig};
use hemtt_preprocessor::Processor;
use hemtt_workspace::lint::{AnyLintGroupRunner, AnyLintRunner, Lint, LintGroupRunner, LintManager, LintRunner, Lints};
use hemtt_workspace::reporting::{Code, Codes, CodesExt, Processed, Severity};
use hemtt_workspace::{LayerType, Workspace};
use std::collections::HashMap;
use std::sync::Arc;
use symrt::{check, choice, fail, flip, reach};

pub fn run(h: u32) {
    fs::reset(0);
    match h {
        0 => manager(),
        1 => config_lints(),
        2 => stringtables(),
        3 => names(),
        _ => {}
    }
}

const SEV: [Severity; 5] = [Severity::Help, Severity::Note, Severity::Warning, Severity::Error, Severity::Bug];
const WORD: [&str; 5] = ["Help", "Note", "Warning", "Error", "Bug"];

struct Ran {
    who: &'static str,
    severity: Severity,
    option: i64,
    group: bool,
}
impl Code for Ran {
    fn ident(&self) -> &'static str {
        self.who
    }
    fn message(&self) -> String {
        format!("{}{}", i32::from(self.group), self.option)
    }
    fn severity(&self) -> Severity {
        self.severity
    }
}
/// what a lint looks at
struct Cat;
struct Dog;
#[derive(Clone, Copy)]
struct L {
    name: &'static str,
    default: usize,
    min: usize,
    enabled: bool,
    cat: bool,
    /// the option `o` of its default
    option: Option<i64>,
}
impl Lint<()> for L {
    fn ident(&self) -> &'static str {
        self.name
    }
    fn description(&self) -> &'static str {
        ""
    }
    fn documentation(&self) -> &'static str {
        ""
    }
    fn default_config(&self) -> LintConfig {
        let o: HashMap<String, toml::Value> = self.option.iter().map(|o| ("o".to_string(), toml::Value::Integer(*o))).collect();
        LintConfig::new(SEV[self.default], o).with_enabled(self.enabled)
    }
    fn minimum_severity(&self) -> Severity {
        SEV[self.min]
    }
    fn runners(&self) -> Vec<Box<dyn AnyLintRunner<()>>> {
        if self.cat {
            vec![Box::new(CatRunner(self.name))]
        } else {
            vec![Box::new(DogRunner(self.name))]
        }
    }
}
fn option(c: &LintConfig) -> i64 {
    c.option("o").and_then(toml::Value::as_integer).unwrap_or(-1)
}
struct CatRunner(&'static str);
impl LintRunner<()> for CatRunner {
    type Target = Cat;
    fn run(&self, _: Option<&ProjectConfig>, c: &LintConfig, _: Option<&Processed>, _: &Cat, _: &()) -> Codes {
        vec![Arc::new(Ran { who: self.0, severity: c.severity(), option: option(c), group: false })]
    }
}
struct DogRunner(&'static str);
impl LintRunner<()> for DogRunner {
    type Target = Dog;
    fn run(&self, _: Option<&ProjectConfig>, c: &LintConfig, _: Option<&Processed>, _: &Dog, _: &()) -> Codes {
        vec![Arc::new(Ran { who: self.0, severity: c.severity(), option: option(c), group: false })]
    }
}
struct Group;
impl LintGroupRunner<()> for Group {
    type Target = Cat;
    fn run(&self, _: Option<&ProjectConfig>, c: HashMap<String, LintConfig>, _: Option<&Processed>, _: &Cat, _: &()) -> Codes {
        let mut v: Codes = Vec::new();
        for who in ["one", "two", "three"] {
            if let Some(c) = c.get(who) {
                v.push(Arc::new(Ran { who, severity: c.severity(), option: option(c), group: true }));
            }
        }
        if c.is_empty() {
            fail("a group of lints runs with none of them");
        }
        v
    }
}

/// of lints with one name only the first is there
fn names() {
    let n = symrt::param(0);
    let mut m: LintManager<()> = LintManager::new(HashMap::new());
    let mut had: Vec<&str> = Vec::new();
    for _ in 0..n {
        let l = L { name: ["one", "two", "three"][choice(3)], default: 2, min: 0, enabled: true, cat: true, option: None };
        let l: Arc<Box<dyn Lint<()>>> = Arc::new(Box::new(l));
        let name = l.ident();
        let ok = if flip() { m.push(l) } else { m.extend(vec![l]) }.is_ok();
        check(ok != had.contains(&name), "a lint is accepted twice, or not at all");
        if ok {
            had.push(name);
        }
    }
    reach("names");
    let codes = m.run(&(), None, None, &Cat);
    check(codes.len() == had.len(), "a lint runs twice, or not at all");
}
fn manager() {
    let (n, full) = (symrt::param(0), symrt::param(1) == 1);
    // lints.toml, and what it says
    let mut text = String::from("[config]\n");
    let mut lints: Vec<L> = Vec::new();
    let mut over: Vec<(Option<bool>, Option<usize>, Option<i64>)> = Vec::new();
    let mut configured: Vec<bool> = Vec::new();
    let names = ["one", "two", "three"];
    let same = n > 1 && flip();
    for k in 0..n {
        let default = if k == 0 || full { choice(4) } else { 2 };
        let min = if k == 0 || full { choice(4) } else { choice(2) * 3 };
        let name = if same && k == n - 1 { names[0] } else { names[k] };
        lints.push(L { name, default, min, enabled: k != 0 || flip(), cat: flip(), option: (k == 0).then_some(7) });
        if name != names[k] {
            // configured once
            over.push(over[0]);
            configured.push(configured[0]);
            continue;
        }
        let form = choice(4);
        let (en, se) = match form {
            1 => (Some(flip()), None),
            2 => (None, Some(choice(5))),
            3 => ([None, Some(true), Some(false)][choice(3)], if full { [None, Some(1), Some(2), Some(3)][choice(4)] } else { Some(2) }),
            _ => (None, None),
        };
        let op = (form == 3 && flip()).then_some(3);
        match form {
            1 => text.push_str(&format!("{name} = {}\n", en == Some(true))),
            2 => text.push_str(&format!("{name} = \"{}\"\n", WORD[se.unwrap_or(0)])),
            3 => {
                text.push_str(&format!("{name} = {{ "));
                let mut sep = "";
                if let Some(e) = en {
                    text.push_str(&format!("enabled = {e}"));
                    sep = ", ";
                }
                if let Some(s) = se {
                    text.push_str(&format!("{sep}severity = \"{}\"", WORD[s]));
                    sep = ", ";
                }
                if let Some(o) = op {
                    text.push_str(&format!("{sep}options = {{ o = {o} }}"));
                }
                text.push_str(" }\n");
            }
            _ => {}
        }
        over.push((en, se, op));
        configured.push(form > 0);
    }
    fs::file(".hemtt/project.toml", b"name = \"N\"\nprefix = \"abe\"\n");
    fs::file(".hemtt/lints.toml", text.as_bytes());
    let Ok(project) = ProjectConfig::from_file(&fs::path(".hemtt/project.toml")) else { fail("a valid lint configuration is rejected") };
    let mut m: LintManager<()> = LintManager::new(project.lints().config().clone());
    // what is in force
    let severity = |k: usize| over[k].1.unwrap_or(lints[k].default);
    let enabled = |k: usize| over[k].0.unwrap_or(lints[k].enabled);
    let value = |k: usize| over[k].2.or(lints[k].option).unwrap_or(-1);
    // only what is configured is looked at
    let fine = |k: usize| !configured[k] || (severity(k) >= lints[k].min && (enabled(k) || lints[k].min != 3));
    let arc = |k: usize| -> Arc<Box<dyn Lint<()>>> { Arc::new(Box::new(lints[k])) };
    let ways = choice(3);
    let mut added: Vec<usize> = Vec::new();
    let mut group: Vec<usize> = Vec::new();
    match ways {
        0 => {
            for k in 0..n {
                let ok = m.push(arc(k)).is_ok();
                check(ok == (fine(k) && !added.iter().any(|a| lints[*a].name == lints[k].name)), "a lint is accepted or rejected wrongly");
                if ok {
                    added.push(k);
                }
            }
        }
        1 => {
            if same {
                return;
            }
            let l: Lints<()> = (0..n).map(arc).collect();
            let r = m.extend(l);
            check(r.is_ok() == (0..n).all(fine), "lints are accepted or rejected wrongly");
            if r.is_ok() {
                added.extend(0..n);
            } else if let Err(e) = r {
                check(e.failed(), "rejected lints are no error");
            }
        }
        _ => {
            if same {
                return;
            }
            let l: Lints<()> = (0..n).map(arc).collect();
            let ok = m.push_group(l, Box::new(Group)).is_ok();
            check(ok == (0..n).all(fine), "a group of lints is accepted or rejected wrongly");
            if ok {
                group.extend(0..n);
            }
        }
    }
    let cat = flip();
    let codes = if cat { m.run(&(), Some(&project), None, &Cat) } else { m.run(&(), Some(&project), None, &Dog) };
    let mut want = 0;
    for k in added.iter().chain(&group).copied() {
        let grouped = !group.is_empty();
        let runs = enabled(k) && if grouped { cat } else { lints[k].cat == cat };
        let found: Vec<_> = codes.iter().filter(|c| c.ident() == lints[k].name).collect();
        check(found.len() == usize::from(runs), "a lint runs that should not, or does not run");
        if runs {
            reach("runs");
            want += 1;
            check(found[0].severity() == SEV[severity(k)], "a lint runs with another severity");
            check(found[0].message() == format!("{}{}", i32::from(grouped), value(k)), "a lint runs with other options");
        } else {
            reach("silent");
        }
    }
    check(codes.len() == want, "lints run that were not added");
}

/// configs with something for a lint each: its name, code, default severity and least severity
const CASES: [(&str, &str, &str, usize, usize); 6] = [
    ("duplicate_property", "L-C02", "class A { a = 1; a = 2; };\n", 3, 3),
    ("duplicate_classes", "L-C03", "class A {}; class A {};\n", 3, 3),
    ("external_parent_case", "L-C05", "class Abc {}; class B: abC {};\n", 3, 0),
    ("expected_array", "L-C07", "class A { a[] = 1; };\n", 3, 3),
    ("magwell_missing_magazine", "L-C09", "class CfgMagazineWells { class W { m[] = { \"abe_x\" }; }; };\nclass CfgMagazines { class abe_y {}; };\n", 3, 2),
    ("external_missing", "L-C04", "class B: Nowhere {};\n", 3, 3),
];
/// the lints of configs follow the project's configuration
fn config_lints() {
    let (k, other) = (choice(CASES.len()), choice(CASES.len()));
    let (name, code, src, default, min) = CASES[k];
    // one lint is configured, perhaps another one than the one that has something to say
    let set = CASES[other];
    let form = choice(3);
    let (en, se) = match form {
        1 => (Some(flip()), None),
        2 => (None, Some([0, 2, 3][choice(3)])),
        _ => (None, None),
    };
    let mut t = String::from("name = \"N\"\nprefix = \"abe\"\n");
    match form {
        1 => t.push_str(&format!("[lints.config]\n{} = {}\n", set.0, en == Some(true))),
        2 => t.push_str(&format!("[lints.config]\n{} = \"{}\"\n", set.0, WORD[se.unwrap_or(0)])),
        _ => {}
    }
    fs::file(".hemtt/project.toml", t.as_bytes());
    fs::file("addons/a/config.cpp", src.as_bytes());
    let Ok(project) = ProjectConfig::from_file(&fs::path(".hemtt/project.toml")) else { fail("a valid lint configuration is rejected") };
    let Ok(w) = Workspace::builder().physical(&fs::path(""), LayerType::Source).finish(Some(project.clone()), false, &PDriveOption::Disallow) else { fail("a workspace is rejected") };
    let Ok(p) = w.join("addons/a/config.cpp") else { fail("a path is rejected") };
    let Ok(p) = Processor::run(&p) else { fail("a config is rejected") };
    let allowed = match (en, se) {
        (Some(e), _) => e || set.4 != 3,
        (_, Some(s)) => s >= set.4,
        _ => true,
    };
    check(hemtt_config::analyze::lint_check(project.lints().config().clone()).is_empty() == allowed, "a lint configuration is accepted or rejected wrongly");
    let r = hemtt_config::parse(Some(&project), &p);
    if !allowed {
        reach("not allowed");
        check(r.is_err(), "a lint that may not be turned off is turned off");
        return;
    }
    let Ok(r) = r else { fail("a config is rejected") };
    let mine: Vec<_> = r.codes().iter().filter(|c| c.ident() == code).collect();
    let off = set.0 == name && en == Some(false);
    check(mine.is_empty() == off, "a lint reports though it is off, or does not report");
    check(r.codes().len() == mine.len(), "another lint reports");
    for c in mine {
        let want = SEV[if set.0 == name { se.unwrap_or(default) } else { default }];
        check(c.severity() == want, &format!("{code} is not as severe as configured"));
        let Some(d) = c.diagnostic() else { fail("a lint without a diagnostic") };
        check(d.severity == want, &format!("{code} is not shown as severe as configured"));
        reach("reported");
    }
    let (errors, warnings) = (r.errors().len(), r.warnings().len());
    check(errors == r.codes().iter().filter(|c| c.severity() == Severity::Error).count(), "the errors are not those of the report");
    check(warnings == r.codes().iter().filter(|c| c.severity() == Severity::Warning).count(), "the warnings are not those of the report");
}

/// a stringtable with two keys and two languages, in order or not
fn stringtable(keys: [u8; 2], swapped: bool) -> String {
    let mut t = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"N\">\n    <Package name=\"P\">\n");
    for k in keys {
        t.push_str("        <Key ID=\"STR_");
        t.push(k as char);
        t.push_str("\">\n");
        let lines = ["            <English>a</English>\n", "            <German>b</German>\n"];
        t.push_str(lines[usize::from(swapped)]);
        t.push_str(lines[usize::from(!swapped)]);
        t.push_str("        </Key>\n");
    }
    t.push_str("    </Package>\n</Project>\n");
    t
}
/// exactly the stringtables that sorting would change are reported
fn stringtables() {
    let n = symrt::param(0);
    let only_lang = choice(3);
    let se = [None, Some(2), Some(3)][choice(3)];
    let off = se.is_none() && only_lang == 0 && flip();
    let mut t = String::from("name = \"N\"\nprefix = \"abe\"\n[lints.stringtables.sorted]\n");
    if let Some(s) = se {
        t.push_str(&format!("severity = \"{}\"\n", WORD[s]));
    }
    if only_lang > 0 {
        t.push_str(&format!("options.only-lang = {}\n", only_lang == 1));
    }
    if off {
        t.push_str("enabled = false\n");
    }
    fs::file(".hemtt/project.toml", t.as_bytes());
    let Ok(project) = ProjectConfig::from_file(&fs::path(".hemtt/project.toml")) else { fail("a valid lint configuration is rejected") };
    let Ok(w) = Workspace::builder().memory().finish(None, false, &PDriveOption::Disallow) else { fail("a workspace is rejected") };
    let mut all = Vec::new();
    let mut want = Vec::new();
    for k in 0..n {
        let keys = if n == 1 { [symrt::of(b"abc"), symrt::of(b"abc")] } else { [*b"ab", *b"ba"][choice(2)] };
        let swapped = flip();
        let text = stringtable(keys, swapped);
        let Ok(p) = hemtt_stringtable::Project::from_reader(std::io::BufReader::new(text.as_bytes())) else { fail("a stringtable is rejected") };
        let name = format!("addons/{k}/stringtable.xml");
        let Ok(at) = w.join(&name) else { fail("a path is rejected") };
        if swapped || (keys[0] > keys[1] && only_lang != 1) {
            want.push(name);
        }
        // blank lines around do not matter
        all.push((p, at, if k == 0 { format!("{text}\n") } else { text }));
    }
    let codes = hemtt_stringtable::analyze::lint_all(&all, Some(&project));
    for one in &all {
        check(hemtt_stringtable::analyze::lint_one(one, Some(&project)).is_empty(), "a lint of all stringtables reports for one of them");
    }
    if off {
        check(codes.is_empty(), "a lint reports though it is off");
        return;
    }
    for c in &codes {
        check(c.ident() == "L-L01", "another lint reports");
        check(c.severity() == SEV[se.unwrap_or(2)], "a lint of stringtables is not as severe as configured");
    }
    if want.len() > 3 {
        reach("many");
        check(codes.len() == 1 && codes[0].message().starts_with(&want.len().to_string()), "the number of unsorted stringtables is wrong");
    } else {
        reach("few");
        check(codes.len() == want.len(), "a sorted stringtable is reported, or an unsorted one is not");
        for (c, n) in codes.iter().zip(&want) {
            check(c.message().contains(&n[..]), "another stringtable is reported");
        }
    }
}
