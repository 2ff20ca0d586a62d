#![allow(unused_imports, clippy::all)]
//! Stand-in for arma3-wiki (MIT): `model` and `commands` are that crate's, without what reads the wiki itself.
//! The data, which the crate downloads when it is built, is a few commands and event handlers.
use std::collections::HashMap;

use commands::Commands;
use model::{Arg, Call, Command, EventHandlerNamespace, ParsedEventHandler, Since, Syntax, Value, Version};

pub mod commands;
pub mod model;

pub struct Wiki {
    version: Version,
    commands: Commands,
    event_handlers: HashMap<EventHandlerNamespace, Vec<ParsedEventHandler>>,
    custom: Vec<String>,
    updated: bool,
}

/// Name, the kinds of calls (n, u, b), the version of the command, what it returns.
pub const COMMANDS: &[(&str, &str, (u8, u8), Value)] = &[
    ("player", "n", (0, 50), Value::Object),
    ("allPlayers", "n", (1, 50), Value::ArrayUnknown),
    ("time", "n", (0, 50), Value::Number),
    ("objNull", "n", (0, 50), Value::Object),
    ("grpNull", "n", (0, 50), Value::Group),
    ("controlNull", "n", (0, 50), Value::Control),
    ("teamMemberNull", "n", (0, 50), Value::TeamMember),
    ("configNull", "n", (1, 54), Value::Config),
    ("text", "u", (0, 50), Value::StructuredText),
    ("leader", "u", (0, 50), Value::Object),
    ("objectParent", "u", (1, 50), Value::Object),
    ("formatText", "u", (0, 50), Value::StructuredText),
    ("echo", "u", (0, 50), Value::Nothing),
    ("nil", "nu", (0, 50), Value::Nothing),
    ("isServer", "n", (0, 50), Value::Boolean),
    ("west", "n", (0, 50), Value::Side),
    ("missionNamespace", "n", (1, 20), Value::Namespace),
    ("true", "n", (0, 50), Value::Boolean),
    ("false", "n", (0, 50), Value::Boolean),
    ("count", "ub", (0, 50), Value::Number),
    ("call", "ub", (0, 50), Value::Anything),
    ("spawn", "b", (0, 50), Value::ScriptHandle),
    ("if", "u", (0, 50), Value::IfType),
    ("then", "b", (0, 50), Value::Anything),
    ("else", "b", (0, 50), Value::ArrayUnknown),
    ("private", "u", (0, 50), Value::Nothing),
    ("params", "ub", (1, 48), Value::Boolean),
    ("param", "ub", (1, 48), Value::Anything),
    ("select", "b", (0, 50), Value::Anything),
    ("getVariable", "b", (0, 50), Value::Anything),
    ("setVariable", "b", (0, 50), Value::Nothing),
    ("getOrDefault", "b", (2, 2), Value::Anything),
    ("vectorAdd", "b", (1, 22), Value::ArrayUnknown),
    ("vectorDotProduct", "b", (1, 22), Value::Number),
    ("random", "u", (0, 50), Value::Number),
    ("sqrt", "u", (0, 50), Value::Number),
    ("toLower", "u", (0, 50), Value::String),
    ("toUpper", "u", (0, 50), Value::String),
    ("toLowerANSI", "u", (2, 0), Value::String),
    ("toUpperANSI", "u", (2, 0), Value::String),
    ("positionCameraToWorld", "u", (0, 50), Value::ArrayUnknown),
    ("typeName", "u", (0, 50), Value::String),
    ("typeOf", "u", (0, 50), Value::String),
    ("str", "u", (0, 50), Value::String),
    ("format", "u", (0, 50), Value::String),
    ("parseNumber", "u", (0, 50), Value::Number),
    ("find", "b", (0, 50), Value::Number),
    ("in", "b", (0, 50), Value::Boolean),
    ("isNil", "u", (0, 50), Value::Boolean),
    ("isNull", "u", (0, 50), Value::Boolean),
    ("alive", "u", (0, 50), Value::Boolean),
    ("vehicle", "u", (0, 50), Value::Object),
    ("hint", "u", (0, 50), Value::Nothing),
    ("systemChat", "u", (0, 50), Value::Nothing),
    ("isEqualTo", "b", (1, 54), Value::Boolean),
    ("pushBack", "b", (1, 26), Value::Number),
    ("forEach", "b", (0, 50), Value::Anything),
    ("while", "u", (0, 50), Value::WhileType),
    ("do", "b", (0, 50), Value::Anything),
    ("not", "u", (0, 50), Value::Boolean),
    ("and", "b", (0, 50), Value::Boolean),
    ("or", "b", (0, 50), Value::Boolean),
    ("max", "b", (0, 50), Value::Number),
    ("min", "b", (0, 50), Value::Number),
    ("mod", "b", (0, 50), Value::Number),
    ("atan2", "b", (0, 50), Value::Number),
    ("+", "ub", (0, 50), Value::Anything),
    ("-", "ub", (0, 50), Value::Anything),
    ("!", "u", (0, 50), Value::Boolean),
    ("setMarkerPos", "b", (0, 50), Value::Nothing),
    ("setMarkerPosLocal", "b", (0, 50), Value::Nothing),
    ("setMarkerText", "b", (0, 50), Value::Nothing),
    ("setMarkerTextLocal", "b", (0, 50), Value::Nothing),
    ("setMarkerColor", "b", (0, 50), Value::Nothing),
    ("setMarkerColorLocal", "b", (0, 50), Value::Nothing),
    ("createMarker", "u", (0, 50), Value::String),
    ("createMarkerLocal", "u", (0, 50), Value::String),
    ("addEventHandler", "b", (0, 50), Value::Number),
    ("addMissionEventHandler", "u", (1, 58), Value::Number),
    ("addMPEventHandler", "b", (0, 50), Value::Number),
];

/// Namespace, name, version.
pub const EVENTS: &[(EventHandlerNamespace, &str, Option<(u8, u8)>)] = &[
    (EventHandlerNamespace::Standard, "Fired", None),
    (EventHandlerNamespace::Standard, "GetInMan", Some((1, 58))),
    (EventHandlerNamespace::Mission, "Draw3D", None),
    (EventHandlerNamespace::Mission, "GroupCreated", Some((2, 6))),
    (EventHandlerNamespace::Multiplayer, "MPKilled", None),
];

impl Wiki {
    #[must_use]
    pub const fn version(&self) -> &Version {
        &self.version
    }

    #[must_use]
    pub const fn commands(&self) -> &Commands {
        &self.commands
    }

    #[must_use]
    pub const fn event_handlers(&self) -> &HashMap<EventHandlerNamespace, Vec<ParsedEventHandler>> {
        &self.event_handlers
    }

    #[must_use]
    pub const fn updated(&self) -> bool {
        self.updated
    }

    #[must_use]
    pub fn load(_force_pull: bool) -> Self {
        Self::load_dist()
    }

    pub fn add_custom_command(&mut self, command: Command) {
        let name = command.name().to_lowercase();
        self.custom.push(name.clone());
        self.commands.raw_mut().insert(name, command);
    }

    /// # Errors
    /// Returns an error if the command could not be parsed.
    pub fn add_custom_command_parse(&mut self, command: &str) -> Result<Command, String> {
        let command: Command = serde_yaml::from_str(command).map_err(|e| format!("{e}"))?;
        self.add_custom_command(command.clone());
        Ok(command)
    }

    pub fn remove_command(&mut self, name: &str) -> bool {
        let name = name.to_lowercase();
        self.commands.raw_mut().remove(&name);
        if self.custom.contains(&name) {
            self.custom.retain(|c| c != &name);
            true
        } else {
            false
        }
    }

    #[must_use]
    pub fn is_custom_command(&self, name: &str) -> bool {
        self.custom.contains(&name.to_lowercase())
    }

    #[must_use]
    pub fn event_handler(&self, id: &str) -> Vec<(EventHandlerNamespace, &ParsedEventHandler)> {
        let mut handlers = Vec::new();
        for (ns, hs) in &self.event_handlers {
            if let Some(handler) = hs.iter().find(|h| h.id() == id) {
                handlers.push((*ns, handler));
            }
        }
        handlers
    }

    /// # Errors
    /// There is no remote.
    pub fn load_git(_force_pull: bool) -> Result<Self, String> {
        Err("no remote".to_string())
    }

    #[must_use]
    pub fn load_dist() -> Self {
        let mut commands = HashMap::new();
        for (name, kinds, (major, minor), ret) in COMMANDS {
            let mut c = Command::default();
            c.set_name((*name).to_string());
            let arg = |n: &str| Arg::Item(n.to_string());
            for k in kinds.chars() {
                let call = match k {
                    'n' => Call::Nular,
                    'u' => Call::Unary(arg("a")),
                    _ => Call::Binary(arg("a"), arg("b")),
                };
                c.add_syntax(Syntax::new(call, (ret.clone(), None), Vec::new(), None, None));
            }
            let mut since = Since::default();
            since.set_arma_3(Some(Version::new(*major, *minor)));
            *c.since_mut() = since;
            if *name == "echo" {
                c.add_group("Broken Commands".to_string());
            }
            commands.insert(name.to_lowercase(), c);
        }
        let mut event_handlers: HashMap<_, Vec<_>> = HashMap::new();
        for ns in EventHandlerNamespace::iter() {
            event_handlers.insert(*ns, Vec::new());
        }
        for (ns, id, version) in EVENTS {
            let since = version.map(|(major, minor)| {
                let mut s = Since::default();
                s.set_arma_3(Some(Version::new(major, minor)));
                s
            });
            event_handlers.entry(*ns).or_default().push(ParsedEventHandler::stand_in(id, since));
        }
        Self {
            version: Version::new(2, 18),
            commands: Commands::new(commands),
            event_handlers,
            custom: Vec::new(),
            updated: false,
        }
    }
}
