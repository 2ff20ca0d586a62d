//! What the lints report about scripts, and whether what they suggest means the same.
use crate::fs;
use crate::sqf::{compiled, parsed, process, shown};
use crate::sqfc::{S, T};
use hemtt_common::{
    config::{PDriveOption, ProjectConfig},
    version::Version,
};
use hemtt_sqf::{analyze::analyze, parser::database::Database};
use hemtt_workspace::{addons::Addon, Workspace};
use std::sync::Arc;
use symrt::*;

/// what has to be reported: the code and what it suggests, if that is judged
type Want = Vec<(&'static str, Option<String>)>;

fn pick<T: Copy>(v: &[T]) -> T {
    v[choice(v.len())]
}
/// trees without places
fn bare(t: &T) -> T {
    match t {
        T::Nular(n, _) => T::Nular(n.clone(), (0, 0)),
        T::Var(n, _) => T::Var(n.clone(), (0, 0)),
        T::Un(n, a, _) => T::Un(n.clone(), Box::new(bare(a)), (0, 0)),
        T::Bin(n, a, b, _) => T::Bin(n.clone(), Box::new(bare(a)), Box::new(bare(b)), (0, 0)),
        T::Arr(v, s) => T::Arr(v.iter().map(bare).collect(), *s),
        T::Code(v, _) => T::Code(v.iter().map(bare_all).collect(), Vec::new()),
        _ => t.clone(),
    }
}
fn bare_all(s: &S) -> S {
    match s {
        S::Global(n, t, _) => S::Global(n.clone(), bare(t), (0, 0)),
        S::Local(n, t, _) => S::Local(n.clone(), bare(t), (0, 0)),
        S::Expr(t) => S::Expr(bare(t)),
    }
}
fn tree(src: &str) -> Option<Vec<S>> {
    let db = Database::a3(false);
    let p = process(src.as_bytes())?;
    let s = hemtt_sqf::parser::run(&db, &p).ok()?;
    Some(compiled(&s, &p).code.iter().map(bare_all).collect())
}
struct Setup {
    /// lines of the project's configuration
    config: String,
    /// version that the addon requires
    version: Option<(u32, u32)>,
}
/// lint the snippet in some place; each finding once or, in inner code, at least once
fn judge(set: &Setup, snippet: &str, want: Want) {
    let (before, after) = [("", ""), ("_k = 1;\ncall {", ";};\n"), ("/* \u{e4} */ [1, {call {", ";}}] spawn {1};\n")][if param(0) > 0 { choice(3) } else { 1 }];
    let src = format!("{before}{snippet}{after}");
    let db = Arc::new(Database::a3(false));
    let (s, p) = parsed(&db, src.as_bytes());
    let text = p.as_str();
    let Some(from) = text.find(snippet) else { fail("the preprocessor changes a script without macros") };
    // labels are in the file, not in the processed text
    let file_from = src.find(snippet).unwrap();
    check(!text[..from].contains(snippet), "the preprocessor changes a script without macros");
    let project = if set.config.is_empty() {
        None
    } else {
        fs::reset(0);
        fs::file(".hemtt/project.toml", format!("name = \"N\"\nprefix = \"abe\"\n{}", set.config).as_bytes());
        match ProjectConfig::from_file(&fs::path(".hemtt/project.toml")) {
            Ok(c) => Some(c),
            Err(_) => fail("a valid project file is rejected"),
        }
    };
    let addon = Arc::new(Addon::test_addon());
    if let Some((major, minor)) = set.version {
        let file = p.sources().first().map(|(f, _)| f.clone()).unwrap();
        addon.build_data().set_required_version(Version::new(major, minor, 0, None), file, 0..1);
    }
    let codes = analyze(&s, project.as_ref(), &p, addon, db);
    reach(if want.is_empty() { "clean" } else { "reported" });
    let mut got: Vec<(&str, Option<String>, usize)> = Vec::new();
    for c in &codes {
        shown(&**c);
        let d = c.diagnostic().unwrap();
        let r = d.labels[0].to_codespan().range;
        check(r.start >= file_from && r.end <= file_from + snippet.len() + 1, "a lint reports another place");
        let e = (c.ident(), c.suggestion(), r.start);
        if !got.contains(&e) {
            got.push(e);
        }
    }
    for (ident, sug) in &want {
        let Some(i) = got.iter().position(|g| g.0 == *ident && sug.as_ref().is_none_or(|s| g.1.as_ref().is_some_and(|t| same(t, s)))) else {
            if got.iter().any(|g| g.0 == *ident) {
                fail("what a lint suggests means something else")
            }
            fail("a lint does not report what it should")
        };
        got.remove(i);
    }
    check(got.is_empty(), "a lint reports what is right");
}
fn same(suggested: &str, want: &str) -> bool {
    let (a, b) = (tree(suggested), tree(want));
    check(b.is_some(), "the harness expects text that is no script");
    a == b
}
fn none() -> Setup {
    Setup { config: String::new(), version: None }
}
fn options(lint: &str, opt: &str, values: &str) -> Setup {
    Setup { config: format!("[lints.sqf]\n{lint}.options.{opt} = [{values}]\n"), version: None }
}
fn enabled(lint: &str) -> Setup {
    Setup { config: format!("[lints.sqf]\n{lint} = true\n"), version: None }
}

pub fn run(h: u32) {
    stub_fmt(false);
    fs::reset(0);
    match h {
        0 => types(),
        1 => case(),
        2 => if_assign(),
        3 => find(),
        4 => select(),
        5 => format_args(),
        6 => small(),
        7 => comparisons(),
        8 => reserved(),
        9 => markers(),
        10 => versions(),
        11 => events(),
        12 => custom(),
        _ => {}
    }
}
fn types() {
    let (e, t) = pick(&[
        ("\"\"", "STRING"),
        ("'b'", "STRING"),
        ("1", "SCALAR"),
        ("true", "BOOL"),
        ("{}", "CODE"),
        ("[]", "ARRAY"),
        ("objNull", "OBJECT"),
        ("grpNull", "GROUP"),
        ("controlNull", "CONTROL"),
        ("teamMemberNull", "TEAM_MEMBER"),
        ("configNull", "CONFIG"),
        ("missionNamespace", "NAMESPACE"),
        ("text 'a'", "TEXT"),
        ("_x", ""),
        ("player", ""),
        ("[1]", ""),
        ("{1}", ""),
        ("str 1", ""),
    ]);
    let f = pick(&["typeName ", "TYPENAME ", "typeOf "]);
    let mut want = Vec::new();
    if f == "TYPENAME " {
        want.push(("L-S04", None));
    }
    if f != "typeOf " && !t.is_empty() {
        want.push(("L-S03", Some(format!("\"{t}\""))));
    }
    judge(&none(), &format!("_t = {f}{e}"), want);
}
fn case() {
    let (text, names): (&str, &[(&str, bool)]) = pick(&[
        ("_t = Player", &[("player", false)] as &[_]),
        ("_t = player", &[("player", true)]),
        ("_x setvariable ['a', alive _x]", &[("setVariable", false), ("alive", true)]),
        ("_x setVariable ['a', ALIVE _x]", &[("setVariable", true), ("alive", false)]),
        ("Hint str Player", &[("hint", false), ("str", true), ("player", false)]),
        ("_t = -1 + 2", &[]),
    ]);
    // commands that are ignored, in whatever case
    let ignored = choice(3);
    let set = match ignored {
        0 => none(),
        1 => options("command_case", "ignore", "\"PLAYER\", \"echo\""),
        _ => options("command_case", "ignore", "\"alive\", \"SetVariable\""),
    };
    let want = names
        .iter()
        .filter(|(n, right)| !right && !(ignored == 1 && *n == "player") && !(ignored == 2 && ["alive", "setVariable"].contains(n)))
        .map(|(n, _)| ("L-S04", Some(format!("\"{n}\""))))
        .collect();
    judge(&set, text, want);
}
const CONDITIONS: &[(&str, bool)] = &[("_c", false), ("_a == 1", false), ("_a || {_b}", false), ("alive _c", false), ("isNil '_c'", false), ("!_c", true), ("(_a find 'b''c') != _b", false)];
fn if_assign() {
    const V: &[(&str, Option<&str>)] = &[
        ("1", Some("1")),
        ("0", Some("0")),
        ("'b'", Some("'b'")),
        ("\"q\"\"r\"", Some("\"q\"\"r\"")),
        ("true", Some("true")),
        ("_v", Some("_v")),
        ("2.5;", Some("2.5")),
        ("", None),
        ("alive _v", None),
        ("1;2", None),
        ("_v = 1", None),
        ("'1'", Some("'1'")),
    ];
    let (c, not) = pick(CONDITIONS);
    let (a, x) = pick(V);
    let (b, y) = pick(&V[..V.len().min(param(1))]);
    let mut want = Vec::new();
    if let (Some(x), Some(y)) = (x, y) {
        if !c.starts_with("isNil") {
            let s = if (x, y) == ("1", "0") { format!("parseNumber ({c})") } else { format!("[{y}, {x}] select ({c})") };
            want.push(("L-S05", Some(s)));
        }
    }
    let on = flip();
    if on && not {
        want.push(("L-S11", None));
    }
    judge(&if on { enabled("if_not_else") } else { none() }, &format!("_t = if ({c}) then {{{a}}} else {{{b}}}"), want);
}
fn find() {
    let h = pick(&["_h", "'h'", "\"h\"\"i\"", "[1]", "str 1"]);
    let (n, s) = pick(&[("\"n\"", true), ("'n'", true), ("'n\"m'", true), ("\"n\"\"\"", true), ("_n", false), ("1", false)]);
    let op = pick(&["find", "in"]);
    let (c, r) = pick(&[("> -1", true), (">= -1", false), ("> -2", false), ("> 1", false), ("!= -1", false)]);
    let hit = s && r && op == "find" && !["[1]", "str 1"].contains(&h);
    judge(&none(), &format!("_t = {h} {op} {n} {c}"), if hit { vec![("L-S06", Some(format!("{n} in {h}")))] } else { vec![] });
}
fn select() {
    let (a, kind) = pick(&[("[0, 1]", 1), ("[1, 0]", 2), ("[0, 0]", 0), ("[1, 1]", 0), ("[2, 1]", 0), ("[0, 1, 0]", 0), ("[0, _x]", 0), ("[0]", 0)]);
    // whether it certainly is a truth value, and its negation
    let (c, safe, neg) = pick(&[
        ("true", true, "!true"),
        ("(alive _x)", true, "!(alive _x)"),
        ("(_a == _b)", true, "_a != _b"),
        ("(_a != 'c''d')", true, "_a == 'c''d'"),
        ("(_a > 1)", true, "!(_a > 1)"),
        ("(_a && _b)", true, "!(_a && _b)"),
        ("isServer", true, "!isServer"),
        ("(_a + 1)", false, ""),
        ("_a", false, ""),
        ("1", false, ""),
        ("{1}", false, ""),
        ("(count _x)", false, ""),
    ]);
    let want = match (kind, safe) {
        (1, true) => vec![("L-S07", Some(format!("parseNumber ({c})")))],
        (2, true) => vec![("L-S07", Some(format!("parseNumber ({neg})")))],
        _ => vec![],
    };
    judge(&none(), &format!("_t = {a} select {c}"), want);
}
fn format_args() {
    // a text out of parts, and what its tokens are
    let (mut text, mut most, mut count, mut bad) = (String::new(), 0, 0, false);
    for _ in 0..choice(param(1)) + 1 {
        let (t, n) = pick(&[("%1", 1), ("%2", 2), ("%12", 12), ("%%", 0), ("a ", 0), ("% ", 99), ("\u{e4}", 0)]);
        // digits go on
        text += t;
        match n {
            0 => {}
            99 => bad = true,
            _ => {
                most = most.max(n);
                count += 1;
            }
        }
    }
    let n = choice(4);
    let f = pick(&["format", "FORMATTEXT", "str"]);
    let args: String = (0..n).map(|i| format!(", {i}")).collect();
    let mut want = Vec::new();
    if f == "FORMATTEXT" {
        want.push(("L-S04", None));
    }
    // some are used and not given, given and not used, or some are left out
    if f != "str" && (bad || n != most || most > count) {
        want.push(("L-S08", None));
    }
    let form = choice(3);
    let array = match form {
        0 => format!("[\"{text}\"{args}]"),
        1 => format!("[_f{args}]"),
        _ => "[]".to_string(),
    };
    if form > 0 {
        assume(text == "%1");
        want.retain(|w| w.0 != "L-S08");
    }
    if form == 2 {
        assume(n == 0);
        if f != "str" {
            want.push(("L-S08", None));
        }
    }
    judge(&none(), &format!("_t = {f} {array}"), want);
}
/// those that look at one command or variable
fn small() {
    let caps = |v: &str| !v.starts_with('_') && !v.bytes().any(|c| c.is_ascii_lowercase());
    match choice(6) {
        0 => {
            let v = pick(&["XMOD_TEST", "MYMOD_A", "MYMOD_", "MYMOD", "_ABC", "Abc", "A1", "a1", "SLX_XEH_COMPILE_NEW"]);
            let ignore = flip();
            let hit = caps(v) && v != "SLX_XEH_COMPILE_NEW" && !(ignore && (v == "XMOD_TEST" || v.starts_with("MYMOD_")));
            let set = if ignore { options("var_all_caps", "ignore", "\"XMOD_TEST\", \"MYMOD_*\", \"a*\"") } else { none() };
            judge(&set, &format!("_z = _y + {v}"), if hit { vec![("L-S17", None)] } else { vec![] });
        }
        1 => {
            let (a, ea) = pick(&[("vehicle player", 1), ("vehicle _x", 2), ("alive _x", 0), ("vehicle (leader _x)", 0)]);
            let (b, eb) = pick(&[("player", 1), ("_x", 2), ("_y", 3)]);
            let op = pick(&["==", "!=", "isEqualTo"]);
            let hit = ea == eb && op != "isEqualTo";
            let s = format!("{}isNull objectParent {b}", if op == "!=" { "!" } else { "" });
            let text = if flip() { format!("_t = {a} {op} {b}") } else { format!("_t = {b} {op} ({a})") };
            judge(&none(), &text, if hit { vec![("L-S18", Some(s))] } else { vec![] });
        }
        2 => {
            let v = pick(&["_x", "gl", "(alive _x)", "'a'"]);
            let b = pick(&["true", "False", "1"]);
            let op = pick(&["==", "!=", "isEqualTo"]);
            let hit = matches!(v, "_x" | "gl") && b != "1" && op != "isEqualTo";
            let s = if (b == "true") == (op == "==") { v.to_string() } else { format!("!{v}") };
            let text = if flip() { format!("_t = {v} {op} {b}") } else { format!("_t = {b} {op} {v}") };
            judge(&none(), &text, if hit { vec![("L-S20", Some(s))] } else { vec![] });
        }
        3 => {
            let v = pick(&["_this", "_that", "[_this]"]);
            let c = pick(&["call", "CALL", "spawn"]);
            let on = flip();
            let mut want = Vec::new();
            if c == "CALL" {
                want.push(("L-S04", None));
            }
            if on && v == "_this" && c != "spawn" {
                want.push(("L-S22", None));
            }
            judge(&if on { enabled("this_call") } else { none() }, &format!("{v} {c} _f"), want);
        }
        4 => {
            let c = pick(&["echo", "Echo", "systemChat", "SystemChat", "hint"]);
            let low = c.to_lowercase();
            let k = choice(4);
            let set = match k {
                0 => none(),
                1 => options("banned_commands", "banned", "\"systemchat\""),
                2 => options("banned_commands", "ignore", "\"ECHO\""),
                _ => Setup { config: "[lints.sqf.banned_commands]\noptions.banned = [\"hint\", \"SYSTEMCHAT\"]\noptions.ignore = [\"systemChat\"]\n".into(), version: None },
            };
            let mut want = Vec::new();
            if !["echo", "systemChat", "hint"].contains(&c) {
                want.push(("L-S04", None));
            }
            if low == "echo" && k != 2 || low == "systemchat" && k == 1 || low == "hint" && k == 3 {
                want.push(("L-S09", None));
            }
            judge(&set, &format!("{c} 'a'"), want);
        }
        _ => {
            let c = pick(&["if (!alive player) then {_p} else {player}", "if (!alive player) then {_p}", "if (alive player) then {_p} else {player}", "if (!_a && _b) then {_p} else {player}"]);
            judge(&enabled("if_not_else"), c, if c.starts_with("if (!alive") && c.contains("else") { vec![("L-S11", None)] } else { vec![] });
        }
    }
}
/// comparisons of variables with numbers that cannot hold together, or one of which says nothing
fn comparisons() {
    const OPS: &[&str] = &["<", "<=", "==", "!=", ">=", ">"];
    const AT: &[f32] = &[0.0, 1.0, 1.5, 2.0, 3.0];
    let n = 2 + choice(param(1));
    let mut text = String::new();
    let mut sets: Vec<(usize, [bool; 5], usize, f32, usize)> = Vec::new();
    let mut group = 0;
    for i in 0..n {
        if i > 0 {
            let or = flip();
            text += if or { " || " } else { " && " };
            group += usize::from(or);
        }
        let v = if i == 0 { 0 } else { choice(2) };
        let op = choice(6);
        let num = 1.0 + choice(2) as f32;
        let turned = param(2) > 0 && flip();
        let holds = |x: f32| match op {
            0 => x < num,
            1 => x <= num,
            2 => x == num,
            3 => x != num,
            4 => x >= num,
            _ => x > num,
        };
        let mut set = [false; 5];
        for k in 0..5 {
            set[k] = holds(AT[k]);
        }
        let name = ["_x", "_y"][v];
        text += &if turned { format!("{num} {} {name}", OPS[[5, 4, 2, 3, 1, 0][op]]) } else { format!("{name} {} {num}", OPS[op]) };
        sets.push((v, set, op, num, group));
    }
    let src = format!("if ({text}) then {{call _f}};\n");
    let db = Arc::new(Database::a3(false));
    let (s, p) = parsed(&db, src.as_bytes());
    let codes = analyze(&s, None, &p, Arc::new(Addon::test_addon()), db);
    let (mut never, mut over) = (0, 0);
    for c in &codes {
        shown(&**c);
        check(c.ident() == "L-S21", "a lint reports what is right");
        match &*c.message() {
            "Impossible comparison" => never += 1,
            "Overlapping comparison" => over += 1,
            _ => fail("an unknown message about comparisons"),
        }
    }
    reach(if codes.is_empty() { "clean" } else { "reported" });
    // pairs that have to hold together
    let (mut may_never, mut must_never, mut may_over, mut must_over) = (0, 0, 0, 0);
    for i in 0..n {
        for j in i + 1..n {
            let (a, b) = (&sets[i], &sets[j]);
            if a.0 != b.0 || a.4 != b.4 {
                continue;
            }
            let none = (0..5).all(|k| !(a.1[k] && b.1[k]));
            let within = (0..5).all(|k| !a.1[k] || b.1[k]) || (0..5).all(|k| !b.1[k] || a.1[k]);
            let (up, down) = (|o: usize| o <= 1, |o: usize| o >= 4);
            may_never += i32::from(none);
            may_over += i32::from(within);
            let apart = up(a.2) && down(b.2) && a.3 < b.3 || up(b.2) && down(a.2) && b.3 < a.3;
            let not = (a.2, b.2) == (2, 3) || (a.2, b.2) == (3, 2);
            must_never += i32::from(apart || not && a.3 == b.3);
            must_over += i32::from(up(a.2) && up(b.2) || down(a.2) && down(b.2) || matches!(a.2, 2 | 3) && a.2 == b.2 && a.3 == b.3);
        }
    }
    check(never >= must_never && over >= must_over, "a lint does not report what it should");
    check(never <= may_never && over <= may_over, "a lint reports what is right");
}
fn reserved() {
    let name = pick(&["_this", "this", "thisList", "_forEachIndex", "_exception", "_that", "thisOne"]);
    let is = !["_that", "thisOne"].contains(&name);
    let once = |b: bool| if b { vec![("L-S23", None)] } else { vec![] };
    match choice(6) {
        0 => judge(&none(), &format!("{name} = 1"), once(is)),
        1 => judge(&none(), &format!("private {name} = _x"), once(is)),
        2 => judge(&none(), &format!("{}[[\"a\"], \"{name}\", 1]", pick(&["params ", "_x params "])), once(is)),
        3 => judge(&none(), &format!("params [[\"{name}\", 1], \"b\"]"), once(is)),
        // kept, changed and put back
        4 => judge(&none(), &format!("private _old = {name};\n{name} = 1;\ncall _f;\n{name} = _old"), vec![]),
        // never put back
        _ => judge(&none(), &format!("private _old = {name};\n{name} = 1;\ncall _f"), once(is)),
    }
}
/// many changes of one marker
fn markers() {
    let n = choice(param(1)) + 1;
    let mut lines = Vec::new();
    // changes since the variable had its value
    let mut now = [0, 0, 0];
    let mut hits = 0;
    for _ in 0..n {
        let m = choice(3);
        let name = ["\"m\"", "m", "\"n\""][m];
        match choice(5) {
            0 => {
                lines.push(format!("{name} setMarkerPos _p"));
                now[m] += 1;
            }
            1 => {
                lines.push(format!("{name} setMarkerText 'a'"));
                now[m] += 1;
            }
            2 => lines.push(format!("{name} setMarkerColorLocal _c")),
            3 => lines.push(format!("hint str {name}")),
            _ => {
                assume(m == 1);
                lines.push("m = createMarker [_a, _p]".into());
                hits += usize::from(now[m] > 1);
                now[m] = 0;
            }
        }
    }
    hits += now.iter().filter(|c| **c > 1).count();
    judge(&none(), &lines.join(";\n"), vec![("L-S24", None); hits]);
}
/// commands newer than what the addon requires
fn versions() {
    let required = pick(&[Some((1, 50)), Some((2, 2)), Some((1, 48)), Some((0, 50)), None]);
    let (text, newest) = pick(&[
        ("_t = allPlayers", (1, 50)),
        ("_t = _h getOrDefault [_a, 1]", (2, 2)),
        ("_t = [1] isEqualTo [2]", (1, 54)),
        ("_t = count allPlayers", (1, 50)),
        ("if (_c) then {hint str allPlayers}", (1, 50)),
        ("_t = [[1, toLowerANSI _a]]", (2, 0)),
        ("_t = player", (0, 50)),
        ("hint 'a'; private _u = _h getOrDefault [allPlayers, _x]; hint 'b'", (2, 2)),
        ("params ['_a']", (1, 48)),
        ("_t = - toUpperANSI _a", (2, 0)),
    ]);
    let set = Setup { config: String::new(), version: required };
    let want = if required.is_some_and(|r| r < newest) { vec![("L-S01", None)] } else { vec![] };
    judge(&set, text, want);
}
/// event handlers: name, their kinds, version
fn events() {
    let (id, kind, version) = pick(&[("Fired", 1, (0, 0)), ("GetInMan", 1, (1, 58)), ("Draw3D", 2, (0, 0)), ("GroupCreated", 2, (2, 6)), ("MPKilled", 3, (0, 0)), ("Healed", 0, (0, 0))]);
    let (cmd, with) = pick(&[("_x addEventHandler ", 1), ("addMissionEventHandler ", 2), ("_x addMPEventHandler ", 3), ("_x setVariable ", 0)]);
    let required = pick(&[None, Some((2, 0)), Some((2, 6)), Some((1, 50))]);
    let mode = choice(4);
    let mut set = match mode {
        0 => none(),
        1 => options("event_unknown", "ignore", "\"Healed\""),
        2 => options("event_unknown", "ignore", "\"Other\""),
        _ => Setup { config: "[lints.sqf]\nevent_unknown = false\n".into(), version: None },
    };
    set.version = required;
    let mut want = Vec::new();
    if with > 0 {
        if kind == 0 {
            if mode == 0 || mode == 2 {
                want.push(("L-S02UE", None));
            }
        } else if kind != with {
            want.push(("L-S02IC", None));
        } else if required.is_some_and(|r| r < version) {
            want.push(("L-S02IV", None));
        }
    }
    // the commands need their versions
    if required.is_some_and(|r| r < (1, 58)) && with == 2 {
        want.push(("L-S01", None));
    }
    judge(&set, &format!("{cmd}[\"{id}\", {{hint 'a'}}]"), want);
}
/// commands of the project's own
fn custom() {
    let kind = choice(3);
    let call = ["!Nular", "!Unary unit", "!Binary\n  - unit\n  - way"][kind];
    let yaml = format!("name: myNewOne\ndescription: New.\nsyntax:\n- call: {call}\n  ret:\n    - Boolean\n    - Whether.\n  params: []\nargument_loc: Global\neffect_loc: Global\nexamples: []\n");
    let w = Workspace::builder().memory().finish(None, false, &PDriveOption::Disallow).unwrap();
    let with = flip();
    if with {
        w.join(".hemtt").unwrap().vfs().create_dir().unwrap();
        w.join(".hemtt/commands").unwrap().vfs().create_dir().unwrap();
        w.join(".hemtt/commands/one.yml").unwrap().create_file().unwrap().write_all(yaml.as_bytes()).unwrap();
    }
    let Ok(db) = Database::a3_with_workspace(&w, false) else { fail("a command of the project is rejected") };
    let n = b"mynewone".to_vec();
    let (a, b) = (T::Var(b"_a".to_vec(), (0, 0)), T::Var(b"_b".to_vec(), (0, 0)));
    let (text, want) = [
        ("mynewone", T::Nular(n.clone(), (0, 0))),
        ("MyNewOne _a", T::Un(n.clone(), Box::new(a.clone()), (0, 0))),
        ("_a myNewOne _b", T::Bin(n.clone(), Box::new(a), Box::new(b), (0, 0))),
    ][choice(3)]
    .clone();
    let right = with && matches!((kind, &want), (0, T::Nular(..)) | (1, T::Un(..)) | (2, T::Bin(..)));
    let variable = !with && matches!(want, T::Nular(..));
    let Some(p) = process(text.as_bytes()) else { fail("a script without directives is rejected by the preprocessor") };
    let got = hemtt_sqf::parser::run(&db, &p).ok().map(|s| compiled(&s, &p).code.iter().map(bare_all).collect::<Vec<_>>());
    reach(if right { "known" } else { "unknown" });
    match got {
        Some(v) if right => check(v == vec![S::Expr(want)], "a command of the project is compiled to something else"),
        Some(v) if variable => check(v == vec![S::Expr(T::Var(n, (0, 0)))], "a command that is nowhere is compiled to something else than a variable"),
        None => check(!right && !variable, "a command of the project is not known"),
        Some(_) => fail("what is no command is used as one"),
    }
    // the others stay
    let (s, p) = parsed(&db, b"alive player");
    check(compiled(&s, &p).code.len() == 1, "a command is lost");
}
