// Generated by gen.py (head.rs + tables); stand-in for gen-lsp-types, which is not in the cargo cache.
#![allow(deprecated)]
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::fmt;

pub use url;
pub type Uri = url::Url;
pub type LspAny = serde_json::Value;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum MessageDirection {
    ClientToServer,
    ServerToClient,
    Both,
}

macro_rules! method {
    ($name:ident) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $name(&'static str);
        impl $name {
            pub const fn new(s: &'static str) -> Self {
                $name(s)
            }
            pub const fn as_str(&self) -> &'static str {
                self.0
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(self.0)
            }
        }
        impl From<$name> for String {
            fn from(m: $name) -> String {
                m.0.to_string()
            }
        }
        impl AsRef<str> for $name {
            fn as_ref(&self) -> &str {
                self.0
            }
        }
        impl PartialEq<str> for $name {
            fn eq(&self, o: &str) -> bool {
                self.0 == o
            }
        }
    };
}
method!(LspRequestMethod);
method!(LspNotificationMethod);

pub trait Request {
    type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
    type Result: DeserializeOwned + Serialize + Send + Sync + 'static;
    const METHOD: LspRequestMethod;
    const MESSAGE_DIRECTION: MessageDirection;
}

pub trait Notification {
    type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
    const METHOD: LspNotificationMethod;
    const MESSAGE_DIRECTION: MessageDirection;
}

macro_rules! open_string {
    ($name:ident $(, $c:ident = $v:literal)*) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
        #[serde(transparent)]
        pub struct $name(std::borrow::Cow<'static, str>);
        #[allow(non_upper_case_globals)]
        impl $name {
            $(pub const $c: $name = $name::new($v);)*
            pub const fn new(s: &'static str) -> Self {
                $name(std::borrow::Cow::Borrowed(s))
            }
            pub fn as_str(&self) -> &str {
                &self.0
            }
        }
    };
}
open_string!(PositionEncodingKind, UTF8 = "utf-8", UTF16 = "utf-16", UTF32 = "utf-32");
open_string!(LanguageKind, Move = "move", Toml = "toml");

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ActiveParameter {
    Int(u32),
    Null,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct SemanticToken {
    pub delta_line: u32,
    pub delta_start: u32,
    pub length: u32,
    pub token_type: u32,
    pub token_modifiers_bitset: u32,
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct SemanticTokens {
    pub result_id: Option<String>,
    pub data: Vec<SemanticToken>,
}

mod st_impl {
    use super::*;
    #[derive(Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    struct Raw {
        #[serde(default, skip_serializing_if = "Option::is_none")]
        result_id: Option<String>,
        data: Vec<SemanticToken>,
    }
    impl Serialize for SemanticTokens {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            #[derive(Serialize)]
            #[serde(rename_all = "camelCase")]
            struct Flat {
                #[serde(skip_serializing_if = "Option::is_none")]
                result_id: Option<String>,
                data: Vec<u32>,
            }
            let mut data = Vec::with_capacity(self.data.len() * 5);
            for t in &self.data {
                data.extend([t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset]);
            }
            Flat { result_id: self.result_id.clone(), data }.serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for SemanticTokens {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            #[derive(Deserialize)]
            #[serde(rename_all = "camelCase")]
            struct Flat {
                result_id: Option<String>,
                data: Vec<u32>,
            }
            let f = Flat::deserialize(d)?;
            Ok(SemanticTokens {
                result_id: f.result_id,
                data: f
                    .data
                    .chunks_exact(5)
                    .map(|c| SemanticToken {
                        delta_line: c[0],
                        delta_start: c[1],
                        length: c[2],
                        token_type: c[3],
                        token_modifiers_bitset: c[4],
                    })
                    .collect(),
            })
        }
    }
    impl Serialize for SemanticToken {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            [self.delta_line, self.delta_start, self.length, self.token_type, self.token_modifiers_bitset]
                .serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for SemanticToken {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let c = <[u32; 5]>::deserialize(d)?;
            Ok(SemanticToken {
                delta_line: c[0],
                delta_start: c[1],
                length: c[2],
                token_type: c[3],
                token_modifiers_bitset: c[4],
            })
        }
    }
    #[allow(dead_code)]
    fn _unused(_: Raw) {}
}
