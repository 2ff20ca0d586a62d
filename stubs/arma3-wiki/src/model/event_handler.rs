use std::str::FromStr;

use super::{Locality, Param, Since, Version};

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum EventHandler {
    Failed(String, String),
    Parsed(ParsedEventHandler),
}

impl EventHandler {
    #[must_use]
    pub fn id(&self) -> &str {
        match self {
            Self::Failed(id, _) => id,
            Self::Parsed(event_handler) => &event_handler.id,
        }
    }
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
#[allow(clippy::module_name_repetitions)]
pub struct ParsedEventHandler {
    pub(crate) id: String,
    pub(crate) description: String,
    pub(crate) params: Vec<Param>,
    #[serde(default)]
    #[serde(skip_serializing_if = "Option::is_none")]
    pub(crate) since: Option<Since>,
    pub(crate) argument_loc: Locality,
    pub(crate) effect_loc: Locality,
    #[serde(default)]
    #[serde(skip_serializing_if = "Vec::is_empty")]
    examples: Vec<String>,
}

impl ParsedEventHandler {
    /// not in the crate this stands in for
    pub(crate) fn stand_in(id: &str, since: Option<Since>) -> Self {
        Self {
            id: id.to_string(),
            description: String::new(),
            params: Vec::new(),
            since,
            argument_loc: Locality::default(),
            effect_loc: Locality::default(),
            examples: Vec::new(),
        }
    }
    #[must_use]
    pub fn id(&self) -> &str {
        &self.id
    }

    pub fn set_id(&mut self, id: String) {
        self.id = id;
    }

    #[must_use]
    pub fn description(&self) -> &str {
        &self.description
    }

    pub fn set_description(&mut self, description: String) {
        self.description = description;
    }

    #[must_use]
    pub fn params(&self) -> &[Param] {
        &self.params
    }

    #[must_use]
    pub const fn since(&self) -> Option<&Since> {
        self.since.as_ref()
    }

    #[must_use]
    pub const fn argument_loc(&self) -> Locality {
        self.argument_loc
    }

    #[must_use]
    pub const fn effect_loc(&self) -> Locality {
        self.effect_loc
    }

    #[must_use]
    pub fn examples(&self) -> &[String] {
        &self.examples
    }



}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
#[allow(clippy::module_name_repetitions)]
pub enum EventHandlerNamespace {
    Standard,
    Multiplayer,
    Mission,
    UserAction,
    Projectile,
    Group,
    UserInterface,
    Music,
    Eden,
}

impl EventHandlerNamespace {
    pub fn iter() -> std::slice::Iter<'static, Self> {
        static NAMESPACES: [EventHandlerNamespace; 9] = [
            EventHandlerNamespace::Standard,
            EventHandlerNamespace::Multiplayer,
            EventHandlerNamespace::Mission,
            EventHandlerNamespace::UserAction,
            EventHandlerNamespace::Projectile,
            EventHandlerNamespace::Group,
            EventHandlerNamespace::UserInterface,
            EventHandlerNamespace::Music,
            EventHandlerNamespace::Eden,
        ];
        NAMESPACES.iter()
    }

    #[must_use]
    pub fn commands(&self) -> Vec<&str> {
        match &self {
            Self::Standard => vec![
                "addEventHandler",
                "removeEventHandler",
                "removeAllEventHandlers",
            ],
            Self::Multiplayer => vec![
                "addMPEventHandler",
                "removeMPEventHandler",
                "removeAllMPEventHandlers",
            ],
            Self::Mission => vec!["addMissionEventHandler", "removeMissionEventHandler"],
            Self::UserAction => vec!["addUserActionEventHandler", "removeUserActionEventHandler"],
            Self::Group | Self::Projectile => vec!["addEventHandler", "removeEventHandler"],
            Self::UserInterface => vec![
                "ctrlAddEventHandler",
                "ctrlRemoveEventHandler",
                "ctrlRemoveAllEventHandlers",
                "displayAddEventHandler",
                "displayRemoveEventHandler",
                "displayRemoveAllEventHandlers",
            ],
            Self::Music => vec![
                "setMusicEventHandler",
                "addMusicEventHandler",
                "removeMusicEventHandler",
                "removeAllMusicEventHandlers",
            ],
            Self::Eden => vec![
                "add3DENEventHandler",
                "remove3DENEventHandler",
                "removeAll3DENEventHandlers",
            ],
        }
    }

    #[must_use]
    pub fn by_command(command: &str) -> Vec<Self> {
        Self::iter()
            .filter(|ns| ns.commands().iter().any(|c| c.to_lowercase() == command.to_lowercase()))
            .copied()
            .collect()
    }
}

impl FromStr for EventHandlerNamespace {
    type Err = String;

    fn from_str(s: &str) -> Result<Self, Self::Err> {
        match s {
            "standard" => Ok(Self::Standard),
            "multiplayer" => Ok(Self::Multiplayer),
            "mission" => Ok(Self::Mission),
            "user_action" => Ok(Self::UserAction),
            "projectile" => Ok(Self::Projectile),
            "group" => Ok(Self::Group),
            "user_interface" => Ok(Self::UserInterface),
            "music" => Ok(Self::Music),
            "eden" => Ok(Self::Eden),
            _ => Err(format!("unknown event handler namespace: {s}")),
        }
    }
}

impl std::fmt::Display for EventHandlerNamespace {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::Standard => write!(f, "standard"),
            Self::Multiplayer => write!(f, "multiplayer"),
            Self::Mission => write!(f, "mission"),
            Self::UserAction => write!(f, "user_action"),
            Self::Projectile => write!(f, "projectile"),
            Self::Group => write!(f, "group"),
            Self::UserInterface => write!(f, "user_interface"),
            Self::Music => write!(f, "music"),
            Self::Eden => write!(f, "eden"),
        }
    }
}

