use serde::{Deserialize, Serialize};

#[derive(Copy, Clone, Default, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Locality {
    #[default]
    Unspecified,
    Local,
    Global,
    Server,
}

impl Locality {
}
