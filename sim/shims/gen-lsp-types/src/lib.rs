// Generated by gen.py (head.rs + tables); stand-in for gen-lsp-types, which is not in the cargo cache.
#![allow(deprecated)]
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::fmt;

pub use url;
pub type Uri = url::Url;
pub type LspAny = serde_json::Value;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum MessageDirection {
    ClientToServer,
    ServerToClient,
    Both,
}

macro_rules! method {
    ($name:ident) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $name(&'static str);
        impl $name {
            pub const fn new(s: &'static str) -> Self {
                $name(s)
            }
            pub const fn as_str(&self) -> &'static str {
                self.0
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(self.0)
            }
        }
        impl From<$name> for String {
            fn from(m: $name) -> String {
                m.0.to_string()
            }
        }
        impl AsRef<str> for $name {
            fn as_ref(&self) -> &str {
                self.0
            }
        }
        impl PartialEq<str> for $name {
            fn eq(&self, o: &str) -> bool {
                self.0 == o
            }
        }
    };
}
method!(LspRequestMethod);
method!(LspNotificationMethod);

pub trait Request {
    type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
    type Result: DeserializeOwned + Serialize + Send + Sync + 'static;
    const METHOD: LspRequestMethod;
    const MESSAGE_DIRECTION: MessageDirection;
}

pub trait Notification {
    type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
    const METHOD: LspNotificationMethod;
    const MESSAGE_DIRECTION: MessageDirection;
}

macro_rules! open_string {
    ($name:ident $(, $c:ident = $v:literal)*) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
        #[serde(transparent)]
        pub struct $name(std::borrow::Cow<'static, str>);
        #[allow(non_upper_case_globals)]
        impl $name {
            $(pub const $c: $name = $name::new($v);)*
            pub const fn new(s: &'static str) -> Self {
                $name(std::borrow::Cow::Borrowed(s))
            }
            pub fn as_str(&self) -> &str {
                &self.0
            }
        }
    };
}
open_string!(PositionEncodingKind, UTF8 = "utf-8", UTF16 = "utf-16", UTF32 = "utf-32");
open_string!(LanguageKind, Move = "move", Toml = "toml");

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ActiveParameter {
    Int(u32),
    Null,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct SemanticToken {
    pub delta_line: u32,
    pub delta_start: u32,
    pub length: u32,
    pub token_type: u32,
    pub token_modifiers_bitset: u32,
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct SemanticTokens {
    pub result_id: Option<String>,
    pub data: Vec<SemanticToken>,
}

mod st_impl {
    use super::*;
    #[derive(Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    struct Raw {
        #[serde(default, skip_serializing_if = "Option::is_none")]
        result_id: Option<String>,
        data: Vec<SemanticToken>,
    }
    impl Serialize for SemanticTokens {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            #[derive(Serialize)]
            #[serde(rename_all = "camelCase")]
            struct Flat {
                #[serde(skip_serializing_if = "Option::is_none")]
                result_id: Option<String>,
                data: Vec<u32>,
            }
            let mut data = Vec::with_capacity(self.data.len() * 5);
            for t in &self.data {
                data.extend([t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset]);
            }
            Flat { result_id: self.result_id.clone(), data }.serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for SemanticTokens {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            #[derive(Deserialize)]
            #[serde(rename_all = "camelCase")]
            struct Flat {
                result_id: Option<String>,
                data: Vec<u32>,
            }
            let f = Flat::deserialize(d)?;
            Ok(SemanticTokens {
                result_id: f.result_id,
                data: f
                    .data
                    .chunks_exact(5)
                    .map(|c| SemanticToken {
                        delta_line: c[0],
                        delta_start: c[1],
                        length: c[2],
                        token_type: c[3],
                        token_modifiers_bitset: c[4],
                    })
                    .collect(),
            })
        }
    }
    impl Serialize for SemanticToken {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            [self.delta_line, self.delta_start, self.length, self.token_type, self.token_modifiers_bitset]
                .serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for SemanticToken {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let c = <[u32; 5]>::deserialize(d)?;
            Ok(SemanticToken {
                delta_line: c[0],
                delta_start: c[1],
                length: c[2],
                token_type: c[3],
                token_modifiers_bitset: c[4],
            })
        }
    }
    #[allow(dead_code)]
    fn _unused(_: Raw) {}
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy, Hash, PartialOrd, Ord)]
#[serde(rename_all = "camelCase")]
pub struct Position {
    pub line: u32,
    pub character: u32,
}
impl Position { pub const fn new(line: u32, character: u32) -> Self { Self { line, character } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy, Hash, PartialOrd, Ord)]
#[serde(rename_all = "camelCase")]
pub struct Range {
    pub start: Position,
    pub end: Position,
}
impl Range { pub const fn new(start: Position, end: Position) -> Self { Self { start, end } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Location {
    pub uri: Uri,
    pub range: Range,
}
impl Location { pub const fn new(uri: Uri, range: Range) -> Self { Self { uri, range } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct LocationLink {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub origin_selection_range: Option<Range>,
    pub target_uri: Uri,
    pub target_range: Range,
    pub target_selection_range: Range,
}
impl LocationLink { pub const fn new(origin_selection_range: Option<Range>, target_uri: Uri, target_range: Range, target_selection_range: Range) -> Self { Self { origin_selection_range, target_uri, target_range, target_selection_range } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextEdit {
    pub range: Range,
    pub new_text: String,
}
impl TextEdit { pub const fn new(range: Range, new_text: String) -> Self { Self { range, new_text } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct AnnotatedTextEdit {
    pub annotation_id: String,
    #[serde(flatten)]
    pub text_edit: TextEdit,
}
impl AnnotatedTextEdit { pub const fn new(annotation_id: String, text_edit: TextEdit) -> Self { Self { annotation_id, text_edit } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InsertReplaceEdit {
    pub new_text: String,
    pub insert: Range,
    pub replace: Range,
}
impl InsertReplaceEdit { pub const fn new(new_text: String, insert: Range, replace: Range) -> Self { Self { new_text, insert, replace } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentIdentifier {
    pub uri: Uri,
}
impl TextDocumentIdentifier { pub const fn new(uri: Uri) -> Self { Self { uri } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct VersionedTextDocumentIdentifier {
    pub version: i32,
    #[serde(flatten)]
    pub text_document_identifier: TextDocumentIdentifier,
}
impl VersionedTextDocumentIdentifier { pub const fn new(version: i32, text_document_identifier: TextDocumentIdentifier) -> Self { Self { version, text_document_identifier } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct OptionalVersionedTextDocumentIdentifier {
    #[serde(default)]
    pub version: Option<i32>,
    #[serde(flatten)]
    pub text_document_identifier: TextDocumentIdentifier,
}
impl OptionalVersionedTextDocumentIdentifier { pub const fn new(version: Option<i32>, text_document_identifier: TextDocumentIdentifier) -> Self { Self { version, text_document_identifier } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentItem {
    pub uri: Uri,
    pub language_id: LanguageKind,
    pub version: i32,
    pub text: String,
}
impl TextDocumentItem { pub const fn new(uri: Uri, language_id: LanguageKind, version: i32, text: String) -> Self { Self { uri, language_id, version, text } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentPositionParams {
    pub text_document: TextDocumentIdentifier,
    pub position: Position,
}
impl TextDocumentPositionParams { pub const fn new(text_document: TextDocumentIdentifier, position: Position) -> Self { Self { text_document, position } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentEdit {
    pub text_document: OptionalVersionedTextDocumentIdentifier,
    #[serde(default)]
    pub edits: Vec<Edit>,
}
impl TextDocumentEdit { pub const fn new(text_document: OptionalVersionedTextDocumentIdentifier, edits: Vec<Edit>) -> Self { Self { text_document, edits } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct CreateFileOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub overwrite: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ignore_if_exists: Option<bool>,
}
impl CreateFileOptions { pub const fn new(overwrite: Option<bool>, ignore_if_exists: Option<bool>) -> Self { Self { overwrite, ignore_if_exists } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "kind", rename = "create")]
pub struct CreateFile {
    pub uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<CreateFileOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}
impl CreateFile { pub const fn new(uri: Uri, options: Option<CreateFileOptions>, annotation_id: Option<String>) -> Self { Self { uri, options, annotation_id } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "kind", rename = "rename")]
pub struct RenameFile {
    pub old_uri: Uri,
    pub new_uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<CreateFileOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}
impl RenameFile { pub const fn new(old_uri: Uri, new_uri: Uri, options: Option<CreateFileOptions>, annotation_id: Option<String>) -> Self { Self { old_uri, new_uri, options, annotation_id } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct DeleteFileOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub recursive: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ignore_if_not_exists: Option<bool>,
}
impl DeleteFileOptions { pub const fn new(recursive: Option<bool>, ignore_if_not_exists: Option<bool>) -> Self { Self { recursive, ignore_if_not_exists } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "kind", rename = "delete")]
pub struct DeleteFile {
    pub uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<DeleteFileOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}
impl DeleteFile { pub const fn new(uri: Uri, options: Option<DeleteFileOptions>, annotation_id: Option<String>) -> Self { Self { uri, options, annotation_id } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ChangeAnnotation {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub needs_confirmation: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
}
impl ChangeAnnotation { pub const fn new(label: String, needs_confirmation: Option<bool>, description: Option<String>) -> Self { Self { label, needs_confirmation, description } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceEdit {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub changes: Option<HashMap<Uri,Vec<TextEdit>>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_changes: Option<Vec<DocumentChange>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub change_annotations: Option<HashMap<String,ChangeAnnotation>>,
}
impl WorkspaceEdit { pub const fn new(changes: Option<HashMap<Uri,Vec<TextEdit>>>, document_changes: Option<Vec<DocumentChange>>, change_annotations: Option<HashMap<String,ChangeAnnotation>>) -> Self { Self { changes, document_changes, change_annotations } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub work_done_token: Option<ProgressToken>,
}
impl WorkDoneProgressParams { pub const fn new(work_done_token: Option<ProgressToken>) -> Self { Self { work_done_token } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct PartialResultParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub partial_result_token: Option<ProgressToken>,
}
impl PartialResultParams { pub const fn new(partial_result_token: Option<ProgressToken>) -> Self { Self { partial_result_token } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub work_done_progress: Option<bool>,
}
impl WorkDoneProgressOptions { pub const fn new(work_done_progress: Option<bool>) -> Self { Self { work_done_progress } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "kind", rename = "begin")]
pub struct WorkDoneProgressBegin {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancellable: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub message: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub percentage: Option<u32>,
}
impl WorkDoneProgressBegin { pub const fn new(title: String, cancellable: Option<bool>, message: Option<String>, percentage: Option<u32>) -> Self { Self { title, cancellable, message, percentage } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "kind", rename = "report")]
pub struct WorkDoneProgressReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancellable: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub message: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub percentage: Option<u32>,
}
impl WorkDoneProgressReport { pub const fn new(cancellable: Option<bool>, message: Option<String>, percentage: Option<u32>) -> Self { Self { cancellable, message, percentage } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "kind", rename = "end")]
pub struct WorkDoneProgressEnd {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub message: Option<String>,
}
impl WorkDoneProgressEnd { pub const fn new(message: Option<String>) -> Self { Self { message } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressCreateParams {
    pub token: ProgressToken,
}
impl WorkDoneProgressCreateParams { pub const fn new(token: ProgressToken) -> Self { Self { token } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressCancelParams {
    pub token: ProgressToken,
}
impl WorkDoneProgressCancelParams { pub const fn new(token: ProgressToken) -> Self { Self { token } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ProgressParams {
    pub token: ProgressToken,
    pub value: LspAny,
}
impl ProgressParams { pub const fn new(token: ProgressToken, value: LspAny) -> Self { Self { token, value } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct MarkupContent {
    pub kind: MarkupKind,
    pub value: String,
}
impl MarkupContent { pub const fn new(kind: MarkupKind, value: String) -> Self { Self { kind, value } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct Command {
    pub title: String,
    pub command: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub arguments: Option<Vec<LspAny>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<String>,
}
impl Command { pub const fn new(title: String, command: String, arguments: Option<Vec<LspAny>>, tooltip: Option<String>) -> Self { Self { title, command, arguments, tooltip } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeLens {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
}
impl CodeLens { pub const fn new(range: Range, command: Option<Command>, data: Option<LspAny>) -> Self { Self { range, command, data } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CodeDescription {
    pub href: Uri,
}
impl CodeDescription { pub const fn new(href: Uri) -> Self { Self { href } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticRelatedInformation {
    pub location: Location,
    pub message: String,
}
impl DiagnosticRelatedInformation { pub const fn new(location: Location, message: String) -> Self { Self { location, message } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct Diagnostic {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub severity: Option<DiagnosticSeverity>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code: Option<Code>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_description: Option<CodeDescription>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub source: Option<String>,
    pub message: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<DiagnosticTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_information: Option<Vec<DiagnosticRelatedInformation>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "kind", rename = "full")]
pub struct FullDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub result_id: Option<String>,
    #[serde(default)]
    pub items: Vec<Diagnostic>,
}
impl FullDocumentDiagnosticReport { pub const fn new(result_id: Option<String>, items: Vec<Diagnostic>) -> Self { Self { result_id, items } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RelatedFullDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_documents: Option<LspAny>,
    #[serde(flatten)]
    pub full_document_diagnostic_report: FullDocumentDiagnosticReport,
}
impl RelatedFullDocumentDiagnosticReport { pub const fn new(related_documents: Option<LspAny>, full_document_diagnostic_report: FullDocumentDiagnosticReport) -> Self { Self { related_documents, full_document_diagnostic_report } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
#[serde(tag = "kind", rename = "unchanged")]
pub struct UnchangedDocumentDiagnosticReport {
    pub result_id: String,
}
impl UnchangedDocumentDiagnosticReport { pub const fn new(result_id: String) -> Self { Self { result_id } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RelatedUnchangedDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_documents: Option<LspAny>,
    #[serde(flatten)]
    pub unchanged_document_diagnostic_report: UnchangedDocumentDiagnosticReport,
}
impl RelatedUnchangedDocumentDiagnosticReport { pub const fn new(related_documents: Option<LspAny>, unchanged_document_diagnostic_report: UnchangedDocumentDiagnosticReport) -> Self { Self { related_documents, unchanged_document_diagnostic_report } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticServerCancellationData {
    pub retrigger_request: bool,
}
impl DiagnosticServerCancellationData { pub const fn new(retrigger_request: bool) -> Self { Self { retrigger_request } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct PublishDiagnosticsParams {
    pub uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub version: Option<i32>,
    #[serde(default)]
    pub diagnostics: Vec<Diagnostic>,
}
impl PublishDiagnosticsParams { pub const fn new(uri: Uri, version: Option<i32>, diagnostics: Vec<Diagnostic>) -> Self { Self { uri, version, diagnostics } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct BaseSymbolInformation {
    pub name: String,
    pub kind: SymbolKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<SymbolTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub container_name: Option<String>,
}
impl BaseSymbolInformation { pub const fn new(name: String, kind: SymbolKind, tags: Option<Vec<SymbolTag>>, container_name: Option<String>) -> Self { Self { name, kind, tags, container_name } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SymbolInformation {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    pub location: Location,
    #[serde(flatten)]
    pub base_symbol_information: BaseSymbolInformation,
}
impl SymbolInformation { pub const fn new(deprecated: Option<bool>, location: Location, base_symbol_information: BaseSymbolInformation) -> Self { Self { deprecated, location, base_symbol_information } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbol {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    pub kind: SymbolKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<SymbolTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    pub range: Range,
    pub selection_range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub children: Option<Vec<DocumentSymbol>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceSymbol {
    pub location: WorkspaceSymbolLocation,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
    #[serde(flatten)]
    pub base_symbol_information: BaseSymbolInformation,
}
impl WorkspaceSymbol { pub const fn new(location: WorkspaceSymbolLocation, data: Option<LspAny>, base_symbol_information: BaseSymbolInformation) -> Self { Self { location, data, base_symbol_information } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct LocationUriOnly {
    pub uri: Uri,
}
impl LocationUriOnly { pub const fn new(uri: Uri) -> Self { Self { uri } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct PrepareRenamePlaceholder {
    pub range: Range,
    pub placeholder: String,
}
impl PrepareRenamePlaceholder { pub const fn new(range: Range, placeholder: String) -> Self { Self { range, placeholder } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SelectionRange {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parent: Option<Box<SelectionRange>>,
}
impl SelectionRange { pub const fn new(range: Range, parent: Option<Box<SelectionRange>>) -> Self { Self { range, parent } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct Hover {
    pub contents: Contents,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range: Option<Range>,
}
impl Hover { pub const fn new(contents: Contents, range: Option<Range>) -> Self { Self { contents, range } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelp {
    #[serde(default)]
    pub signatures: Vec<SignatureInformation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_signature: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_parameter: Option<ActiveParameter>,
}
impl SignatureHelp { pub const fn new(signatures: Vec<SignatureInformation>, active_signature: Option<u32>, active_parameter: Option<ActiveParameter>) -> Self { Self { signatures, active_signature, active_parameter } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureInformation {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parameters: Option<Vec<ParameterInformation>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_parameter: Option<ActiveParameter>,
}
impl SignatureInformation { pub const fn new(label: String, documentation: Option<Documentation>, parameters: Option<Vec<ParameterInformation>>, active_parameter: Option<ActiveParameter>) -> Self { Self { label, documentation, parameters, active_parameter } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ParameterInformation {
    pub label: ParameterInformationLabel,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
}
impl ParameterInformation { pub const fn new(label: ParameterInformationLabel, documentation: Option<Documentation>) -> Self { Self { label, documentation } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DocumentHighlight {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<DocumentHighlightKind>,
}
impl DocumentHighlight { pub const fn new(range: Range, kind: Option<DocumentHighlightKind>) -> Self { Self { range, kind } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InlayHint {
    pub position: Position,
    pub label: Label,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<InlayHintKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_edits: Option<Vec<TextEdit>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<Tooltip>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub padding_left: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub padding_right: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintLabelPart {
    pub value: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<Tooltip>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub location: Option<Location>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
}
impl InlayHintLabelPart { pub const fn new(value: String, tooltip: Option<Tooltip>, location: Option<Location>, command: Option<Command>) -> Self { Self { value, tooltip, location, command } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionItemLabelDetails {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
}
impl CompletionItemLabelDetails { pub const fn new(detail: Option<String>, description: Option<String>) -> Self { Self { detail, description } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionItem {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_details: Option<CompletionItemLabelDetails>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<CompletionItemKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<CompletionItemTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub preselect: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sort_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub filter_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_text_format: Option<InsertTextFormat>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_text_mode: Option<InsertTextMode>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_edit: Option<CompletionItemTextEdit>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_edit_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub additional_text_edits: Option<Vec<TextEdit>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub commit_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionItemDefaults {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub commit_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
}
impl CompletionItemDefaults { pub const fn new(commit_characters: Option<Vec<String>>, data: Option<LspAny>) -> Self { Self { commit_characters, data } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct CompletionItemApplyKinds {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub commit_characters: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<u32>,
}
impl CompletionItemApplyKinds { pub const fn new(commit_characters: Option<u32>, data: Option<u32>) -> Self { Self { commit_characters, data } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionList {
    pub is_incomplete: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub item_defaults: Option<CompletionItemDefaults>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub apply_kind: Option<CompletionItemApplyKinds>,
    #[serde(default)]
    pub items: Vec<CompletionItem>,
}
impl CompletionList { pub const fn new(is_incomplete: bool, item_defaults: Option<CompletionItemDefaults>, apply_kind: Option<CompletionItemApplyKinds>, items: Vec<CompletionItem>) -> Self { Self { is_incomplete, item_defaults, apply_kind, items } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CompletionContext {
    pub trigger_kind: CompletionTriggerKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_character: Option<String>,
}
impl CompletionContext { pub const fn new(trigger_kind: CompletionTriggerKind, trigger_character: Option<String>) -> Self { Self { trigger_kind, trigger_character } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionDisabled {
    pub reason: String,
}
impl CodeActionDisabled { pub const fn new(reason: String) -> Self { Self { reason } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeAction {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<CodeActionKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostics: Option<Vec<Diagnostic>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub is_preferred: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub disabled: Option<CodeActionDisabled>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub edit: Option<WorkspaceEdit>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<CodeActionTag>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionContext {
    #[serde(default)]
    pub diagnostics: Vec<Diagnostic>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub only: Option<Vec<CodeActionKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_kind: Option<CodeActionTriggerKind>,
}
impl CodeActionContext { pub const fn new(diagnostics: Vec<Diagnostic>, only: Option<Vec<CodeActionKind>>, trigger_kind: Option<CodeActionTriggerKind>) -> Self { Self { diagnostics, only, trigger_kind } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensLegend {
    #[serde(default)]
    pub token_types: Vec<String>,
    #[serde(default)]
    pub token_modifiers: Vec<String>,
}
impl SemanticTokensLegend { pub const fn new(token_types: Vec<String>, token_modifiers: Vec<String>) -> Self { Self { token_types, token_modifiers } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensEdit {
    pub start: u32,
    pub delete_count: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Vec<SemanticToken>>,
}
impl SemanticTokensEdit { pub const fn new(start: u32, delete_count: u32, data: Option<Vec<SemanticToken>>) -> Self { Self { start, delete_count, data } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct MessageActionItem {
    pub title: String,
}
impl MessageActionItem { pub const fn new(title: String) -> Self { Self { title } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ShowMessageParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
}
impl ShowMessageParams { pub const fn new(kind: MessageType, message: String) -> Self { Self { kind, message } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ShowMessageRequestParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub actions: Option<Vec<MessageActionItem>>,
}
impl ShowMessageRequestParams { pub const fn new(kind: MessageType, message: String, actions: Option<Vec<MessageActionItem>>) -> Self { Self { kind, message, actions } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct LogMessageParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
}
impl LogMessageParams { pub const fn new(kind: MessageType, message: String) -> Self { Self { kind, message } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ConfigurationItem {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub scope_uri: Option<Uri>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub section: Option<String>,
}
impl ConfigurationItem { pub const fn new(scope_uri: Option<Uri>, section: Option<String>) -> Self { Self { scope_uri, section } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ConfigurationParams {
    #[serde(default)]
    pub items: Vec<ConfigurationItem>,
}
impl ConfigurationParams { pub const fn new(items: Vec<ConfigurationItem>) -> Self { Self { items } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct Registration {
    pub id: String,
    pub method: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub register_options: Option<LspAny>,
}
impl Registration { pub const fn new(id: String, method: String, register_options: Option<LspAny>) -> Self { Self { id, method, register_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RegistrationParams {
    #[serde(default)]
    pub registrations: Vec<Registration>,
}
impl RegistrationParams { pub const fn new(registrations: Vec<Registration>) -> Self { Self { registrations } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct Unregistration {
    pub id: String,
    pub method: String,
}
impl Unregistration { pub const fn new(id: String, method: String) -> Self { Self { id, method } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct UnregistrationParams {
    #[serde(default)]
    pub unregisterations: Vec<Unregistration>,
}
impl UnregistrationParams { pub const fn new(unregisterations: Vec<Unregistration>) -> Self { Self { unregisterations } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct FileSystemWatcher {
    pub glob_pattern: GlobPattern,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<WatchKind>,
}
impl FileSystemWatcher { pub const fn new(glob_pattern: GlobPattern, kind: Option<WatchKind>) -> Self { Self { glob_pattern, kind } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct RelativePattern {
    pub base_uri: BaseUri,
    pub pattern: String,
}
impl RelativePattern { pub const fn new(base_uri: BaseUri, pattern: String) -> Self { Self { base_uri, pattern } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWatchedFilesRegistrationOptions {
    #[serde(default)]
    pub watchers: Vec<FileSystemWatcher>,
}
impl DidChangeWatchedFilesRegistrationOptions { pub const fn new(watchers: Vec<FileSystemWatcher>) -> Self { Self { watchers } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceFolder {
    pub uri: Uri,
    pub name: String,
}
impl WorkspaceFolder { pub const fn new(uri: Uri, name: String) -> Self { Self { uri, name } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceFoldersChangeEvent {
    #[serde(default)]
    pub added: Vec<WorkspaceFolder>,
    #[serde(default)]
    pub removed: Vec<WorkspaceFolder>,
}
impl WorkspaceFoldersChangeEvent { pub const fn new(added: Vec<WorkspaceFolder>, removed: Vec<WorkspaceFolder>) -> Self { Self { added, removed } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceFoldersInitializeParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_folders: Option<WorkspaceFolders>,
}
impl WorkspaceFoldersInitializeParams { pub const fn new(workspace_folders: Option<WorkspaceFolders>) -> Self { Self { workspace_folders } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientInfo {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub version: Option<String>,
}
impl ClientInfo { pub const fn new(name: String, version: Option<String>) -> Self { Self { name, version } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ServerInfo {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub version: Option<String>,
}
impl ServerInfo { pub const fn new(name: String, version: Option<String>) -> Self { Self { name, version } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InitializeParams {
    #[serde(default)]
    pub process_id: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub client_info: Option<ClientInfo>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub locale: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub root_path: Option<String>,
    #[serde(default)]
    pub root_uri: Option<Uri>,
    #[serde(default)]
    pub capabilities: ClientCapabilities,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub initialization_options: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trace: Option<String>,
    #[serde(flatten)]
    pub workspace_folders_initialize_params: WorkspaceFoldersInitializeParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InitializeResult {
    pub capabilities: ServerCapabilities,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub server_info: Option<ServerInfo>,
}
impl InitializeResult { pub const fn new(capabilities: ServerCapabilities, server_info: Option<ServerInfo>) -> Self { Self { capabilities, server_info } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct InitializedParams {
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CancelParams {
    pub id: Id,
}
impl CancelParams { pub const fn new(id: Id) -> Self { Self { id } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidOpenTextDocumentParams {
    pub text_document: TextDocumentItem,
}
impl DidOpenTextDocumentParams { pub const fn new(text_document: TextDocumentItem) -> Self { Self { text_document } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidCloseTextDocumentParams {
    pub text_document: TextDocumentIdentifier,
}
impl DidCloseTextDocumentParams { pub const fn new(text_document: TextDocumentIdentifier) -> Self { Self { text_document } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidSaveTextDocumentParams {
    pub text_document: TextDocumentIdentifier,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text: Option<String>,
}
impl DidSaveTextDocumentParams { pub const fn new(text_document: TextDocumentIdentifier, text: Option<String>) -> Self { Self { text_document, text } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeTextDocumentParams {
    pub text_document: VersionedTextDocumentIdentifier,
    #[serde(default)]
    pub content_changes: Vec<TextDocumentContentChangeEvent>,
}
impl DidChangeTextDocumentParams { pub const fn new(text_document: VersionedTextDocumentIdentifier, content_changes: Vec<TextDocumentContentChangeEvent>) -> Self { Self { text_document, content_changes } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentContentChangePartial {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range_length: Option<u32>,
    pub text: String,
}
impl TextDocumentContentChangePartial { pub const fn new(range: Range, range_length: Option<u32>, text: String) -> Self { Self { range, range_length, text } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentContentChangeWholeDocument {
    pub text: String,
}
impl TextDocumentContentChangeWholeDocument { pub const fn new(text: String) -> Self { Self { text } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeConfigurationParams {
    pub settings: LspAny,
}
impl DidChangeConfigurationParams { pub const fn new(settings: LspAny) -> Self { Self { settings } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWorkspaceFoldersParams {
    pub event: WorkspaceFoldersChangeEvent,
}
impl DidChangeWorkspaceFoldersParams { pub const fn new(event: WorkspaceFoldersChangeEvent) -> Self { Self { event } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct FileEvent {
    pub uri: Uri,
    #[serde(rename = "type")]
    pub kind: FileChangeType,
}
impl FileEvent { pub const fn new(uri: Uri, kind: FileChangeType) -> Self { Self { uri, kind } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWatchedFilesParams {
    #[serde(default)]
    pub changes: Vec<FileEvent>,
}
impl DidChangeWatchedFilesParams { pub const fn new(changes: Vec<FileEvent>) -> Self { Self { changes } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct FormattingOptions {
    pub tab_size: u32,
    pub insert_spaces: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trim_trailing_whitespace: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_final_newline: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trim_final_newlines: Option<bool>,
}
impl FormattingOptions { pub const fn new(tab_size: u32, insert_spaces: bool, trim_trailing_whitespace: Option<bool>, insert_final_newline: Option<bool>, trim_final_newlines: Option<bool>) -> Self { Self { tab_size, insert_spaces, trim_trailing_whitespace, insert_final_newline, trim_final_newlines } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct ReferenceContext {
    pub include_declaration: bool,
}
impl ReferenceContext { pub const fn new(include_declaration: bool) -> Self { Self { include_declaration } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelpContext {
    pub is_retrigger: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_character: Option<String>,
}
impl SignatureHelpContext { pub const fn new(is_retrigger: bool, trigger_character: Option<String>) -> Self { Self { is_retrigger, trigger_character } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensParams {
    pub text_document: TextDocumentIdentifier,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl SemanticTokensParams { pub const fn new(text_document: TextDocumentIdentifier, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensRangeParams {
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl SemanticTokensRangeParams { pub const fn new(text_document: TextDocumentIdentifier, range: Range, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document, range, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SelectionRangeParams {
    pub text_document: TextDocumentIdentifier,
    #[serde(default)]
    pub positions: Vec<Position>,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl SelectionRangeParams { pub const fn new(text_document: TextDocumentIdentifier, positions: Vec<Position>, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document, positions, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct RenameParams {
    pub new_name: String,
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
impl RenameParams { pub const fn new(new_name: String, text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams) -> Self { Self { new_name, text_document_position_params, work_done_progress_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct PrepareRenameParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
impl PrepareRenameParams { pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams) -> Self { Self { text_document_position_params, work_done_progress_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ReferenceParams {
    pub context: ReferenceContext,
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl ReferenceParams { pub const fn new(context: ReferenceContext, text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { context, text_document_position_params, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintParams {
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
impl InlayHintParams { pub const fn new(text_document: TextDocumentIdentifier, range: Range, work_done_progress_params: WorkDoneProgressParams) -> Self { Self { text_document, range, work_done_progress_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct HoverParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
impl HoverParams { pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams) -> Self { Self { text_document_position_params, work_done_progress_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelpParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context: Option<SignatureHelpContext>,
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
impl SignatureHelpParams { pub const fn new(context: Option<SignatureHelpContext>, text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams) -> Self { Self { context, text_document_position_params, work_done_progress_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbolParams {
    pub text_document: TextDocumentIdentifier,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl DocumentSymbolParams { pub const fn new(text_document: TextDocumentIdentifier, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentHighlightParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl DocumentHighlightParams { pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document_position_params, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentFormattingParams {
    pub text_document: TextDocumentIdentifier,
    pub options: FormattingOptions,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
impl DocumentFormattingParams { pub const fn new(text_document: TextDocumentIdentifier, options: FormattingOptions, work_done_progress_params: WorkDoneProgressParams) -> Self { Self { text_document, options, work_done_progress_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DocumentDiagnosticParams {
    pub text_document: TextDocumentIdentifier,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub identifier: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub previous_result_id: Option<String>,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl DocumentDiagnosticParams { pub const fn new(text_document: TextDocumentIdentifier, identifier: Option<String>, previous_result_id: Option<String>, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document, identifier, previous_result_id, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DefinitionParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl DefinitionParams { pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document_position_params, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ImplementationParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl ImplementationParams { pub const fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document_position_params, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CompletionParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context: Option<CompletionContext>,
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl CompletionParams { pub const fn new(context: Option<CompletionContext>, text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { context, text_document_position_params, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CodeLensParams {
    pub text_document: TextDocumentIdentifier,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl CodeLensParams { pub const fn new(text_document: TextDocumentIdentifier, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionParams {
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
    pub context: CodeActionContext,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl CodeActionParams { pub const fn new(text_document: TextDocumentIdentifier, range: Range, context: CodeActionContext, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { text_document, range, context, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceSymbolParams {
    pub query: String,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
impl WorkspaceSymbolParams { pub const fn new(query: String, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self { Self { query, work_done_progress_params, partial_result_params } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub all_commit_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion_item: Option<ServerCompletionItemOptions>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl CompletionOptions { pub const fn new(trigger_characters: Option<Vec<String>>, all_commit_characters: Option<Vec<String>>, resolve_provider: Option<bool>, completion_item: Option<ServerCompletionItemOptions>, work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { trigger_characters, all_commit_characters, resolve_provider, completion_item, work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct ServerCompletionItemOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_details_support: Option<bool>,
}
impl ServerCompletionItemOptions { pub const fn new(label_details_support: Option<bool>) -> Self { Self { label_details_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelpOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub retrigger_characters: Option<Vec<String>>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl SignatureHelpOptions { pub const fn new(trigger_characters: Option<Vec<String>>, retrigger_characters: Option<Vec<String>>, work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { trigger_characters, retrigger_characters, work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeLensOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl CodeLensOptions { pub const fn new(resolve_provider: Option<bool>, work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { resolve_provider, work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RenameOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub prepare_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl RenameOptions { pub const fn new(prepare_provider: Option<bool>, work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { prepare_provider, work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct HoverOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl HoverOptions { pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DefinitionOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl DefinitionOptions { pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ReferenceOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl ReferenceOptions { pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DocumentHighlightOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl DocumentHighlightOptions { pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbolOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label: Option<String>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl DocumentSymbolOptions { pub const fn new(label: Option<String>, work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { label, work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceSymbolOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl WorkspaceSymbolOptions { pub const fn new(resolve_provider: Option<bool>, work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { resolve_provider, work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DocumentFormattingOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl DocumentFormattingOptions { pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SelectionRangeOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl SelectionRangeOptions { pub const fn new(work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl InlayHintOptions { pub const fn new(resolve_provider: Option<bool>, work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { resolve_provider, work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub identifier: Option<String>,
    pub inter_file_dependencies: bool,
    pub workspace_diagnostics: bool,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl DiagnosticOptions { pub const fn new(identifier: Option<String>, inter_file_dependencies: bool, workspace_diagnostics: bool, work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { identifier, inter_file_dependencies, workspace_diagnostics, work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionKindDocumentation {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<CodeActionKind>,
    pub command: Command,
}
impl CodeActionKindDocumentation { pub const fn new(kind: Option<CodeActionKind>, command: Command) -> Self { Self { kind, command } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action_kinds: Option<Vec<CodeActionKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Vec<CodeActionKindDocumentation>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl CodeActionOptions { pub const fn new(code_action_kinds: Option<Vec<CodeActionKind>>, documentation: Option<Vec<CodeActionKindDocumentation>>, resolve_provider: Option<bool>, work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { code_action_kinds, documentation, resolve_provider, work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensOptions {
    pub legend: SemanticTokensLegend,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub full: Option<Full>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
impl SemanticTokensOptions { pub const fn new(legend: SemanticTokensLegend, range: Option<LspAny>, full: Option<Full>, work_done_progress_options: WorkDoneProgressOptions) -> Self { Self { legend, range, full, work_done_progress_options } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensFullDelta {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub delta: Option<bool>,
}
impl SemanticTokensFullDelta { pub const fn new(delta: Option<bool>) -> Self { Self { delta } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentSyncOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub open_close: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub change: Option<TextDocumentSyncKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_save: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub save: Option<LspAny>,
}
impl TextDocumentSyncOptions { pub const fn new(open_close: Option<bool>, change: Option<TextDocumentSyncKind>, will_save: Option<bool>, save: Option<LspAny>) -> Self { Self { open_close, change, will_save, save } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ServerCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub position_encoding: Option<PositionEncodingKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_document_sync: Option<TextDocumentSync>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion_provider: Option<CompletionOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hover_provider: Option<HoverProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub signature_help_provider: Option<SignatureHelpOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub definition_provider: Option<DefinitionProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub references_provider: Option<ReferencesProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_highlight_provider: Option<DocumentHighlightProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_symbol_provider: Option<DocumentSymbolProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action_provider: Option<CodeActionProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_lens_provider: Option<CodeLensOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_symbol_provider: Option<WorkspaceSymbolProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_formatting_provider: Option<DocumentFormattingProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rename_provider: Option<RenameProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub selection_range_provider: Option<SelectionRangeProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub semantic_tokens_provider: Option<SemanticTokensProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inlay_hint_provider: Option<InlayHintProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostic_provider: Option<DiagnosticProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub experimental: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace: Option<WorkspaceClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_document: Option<TextDocumentClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub notebook_document: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub window: Option<WindowClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub general: Option<GeneralClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub experimental: Option<LspAny>,
}
impl ClientCapabilities { pub const fn new(workspace: Option<WorkspaceClientCapabilities>, text_document: Option<TextDocumentClientCapabilities>, notebook_document: Option<LspAny>, window: Option<WindowClientCapabilities>, general: Option<GeneralClientCapabilities>, experimental: Option<LspAny>) -> Self { Self { workspace, text_document, notebook_document, window, general, experimental } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub apply_edit: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_edit: Option<WorkspaceEditClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_change_configuration: Option<DidChangeConfigurationClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub symbol: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_folders: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub configuration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub semantic_tokens: Option<SemanticTokensWorkspaceClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_lens: Option<CodeLensWorkspaceClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub file_operations: Option<FileOperationClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inlay_hint: Option<InlayHintWorkspaceClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostics: Option<DiagnosticWorkspaceClientCapabilities>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeConfigurationClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
}
impl DidChangeConfigurationClientCapabilities { pub const fn new(dynamic_registration: Option<bool>) -> Self { Self { dynamic_registration } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceEditClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_changes: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resource_operations: Option<Vec<ResourceOperationKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub normalizes_line_endings: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub change_annotation_support: Option<ChangeAnnotationsSupportOptions>,
}
impl WorkspaceEditClientCapabilities { pub const fn new(document_changes: Option<bool>, resource_operations: Option<Vec<ResourceOperationKind>>, normalizes_line_endings: Option<bool>, change_annotation_support: Option<ChangeAnnotationsSupportOptions>) -> Self { Self { document_changes, resource_operations, normalizes_line_endings, change_annotation_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct ChangeAnnotationsSupportOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub groups_on_label: Option<bool>,
}
impl ChangeAnnotationsSupportOptions { pub const fn new(groups_on_label: Option<bool>) -> Self { Self { groups_on_label } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWatchedFilesClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub relative_pattern_support: Option<bool>,
}
impl DidChangeWatchedFilesClientCapabilities { pub const fn new(dynamic_registration: Option<bool>, relative_pattern_support: Option<bool>) -> Self { Self { dynamic_registration, relative_pattern_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensWorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub refresh_support: Option<bool>,
}
impl SemanticTokensWorkspaceClientCapabilities { pub const fn new(refresh_support: Option<bool>) -> Self { Self { refresh_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct CodeLensWorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub refresh_support: Option<bool>,
}
impl CodeLensWorkspaceClientCapabilities { pub const fn new(refresh_support: Option<bool>) -> Self { Self { refresh_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintWorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub refresh_support: Option<bool>,
}
impl InlayHintWorkspaceClientCapabilities { pub const fn new(refresh_support: Option<bool>) -> Self { Self { refresh_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticWorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub refresh_support: Option<bool>,
}
impl DiagnosticWorkspaceClientCapabilities { pub const fn new(refresh_support: Option<bool>) -> Self { Self { refresh_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct FileOperationClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_create: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_create: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_rename: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_rename: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_delete: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_delete: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub synchronization: Option<TextDocumentSyncClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion: Option<CompletionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hover: Option<HoverClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub signature_help: Option<SignatureHelpClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub definition: Option<DefinitionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_symbol: Option<DocumentSymbolClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action: Option<CodeActionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rename: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub semantic_tokens: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inlay_hint: Option<InlayHintClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostic: Option<DiagnosticClientCapabilities>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentSyncClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_save: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_save_wait_until: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_save: Option<bool>,
}
impl TextDocumentSyncClientCapabilities { pub const fn new(dynamic_registration: Option<bool>, will_save: Option<bool>, will_save_wait_until: Option<bool>, did_save: Option<bool>) -> Self { Self { dynamic_registration, will_save, will_save_wait_until, did_save } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion_item: Option<ClientCompletionItemOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context_support: Option<bool>,
}
impl CompletionClientCapabilities { pub const fn new(dynamic_registration: Option<bool>, completion_item: Option<ClientCompletionItemOptions>, context_support: Option<bool>) -> Self { Self { dynamic_registration, completion_item, context_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCompletionItemOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub snippet_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_replace_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_support: Option<ClientCompletionItemResolveOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_details_support: Option<bool>,
}
impl ClientCompletionItemOptions { pub const fn new(snippet_support: Option<bool>, insert_replace_support: Option<bool>, resolve_support: Option<ClientCompletionItemResolveOptions>, label_details_support: Option<bool>) -> Self { Self { snippet_support, insert_replace_support, resolve_support, label_details_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCompletionItemResolveOptions {
    #[serde(default)]
    pub properties: Vec<String>,
}
impl ClientCompletionItemResolveOptions { pub const fn new(properties: Vec<String>) -> Self { Self { properties } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct HoverClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub content_format: Option<Vec<MarkupKind>>,
}
impl HoverClientCapabilities { pub const fn new(dynamic_registration: Option<bool>, content_format: Option<Vec<MarkupKind>>) -> Self { Self { dynamic_registration, content_format } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelpClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub signature_information: Option<ClientSignatureInformationOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context_support: Option<bool>,
}
impl SignatureHelpClientCapabilities { pub const fn new(dynamic_registration: Option<bool>, signature_information: Option<ClientSignatureInformationOptions>, context_support: Option<bool>) -> Self { Self { dynamic_registration, signature_information, context_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientSignatureInformationOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation_format: Option<Vec<MarkupKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parameter_information: Option<ClientSignatureParameterInformationOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_parameter_support: Option<bool>,
}
impl ClientSignatureInformationOptions { pub const fn new(documentation_format: Option<Vec<MarkupKind>>, parameter_information: Option<ClientSignatureParameterInformationOptions>, active_parameter_support: Option<bool>) -> Self { Self { documentation_format, parameter_information, active_parameter_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct ClientSignatureParameterInformationOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_offset_support: Option<bool>,
}
impl ClientSignatureParameterInformationOptions { pub const fn new(label_offset_support: Option<bool>) -> Self { Self { label_offset_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct DefinitionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub link_support: Option<bool>,
}
impl DefinitionClientCapabilities { pub const fn new(dynamic_registration: Option<bool>, link_support: Option<bool>) -> Self { Self { dynamic_registration, link_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbolClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hierarchical_document_symbol_support: Option<bool>,
}
impl DocumentSymbolClientCapabilities { pub const fn new(dynamic_registration: Option<bool>, hierarchical_document_symbol_support: Option<bool>) -> Self { Self { dynamic_registration, hierarchical_document_symbol_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action_literal_support: Option<ClientCodeActionLiteralOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub is_preferred_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub disabled_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_support: Option<ClientCodeActionResolveOptions>,
}
impl CodeActionClientCapabilities { pub const fn new(dynamic_registration: Option<bool>, code_action_literal_support: Option<ClientCodeActionLiteralOptions>, is_preferred_support: Option<bool>, disabled_support: Option<bool>, data_support: Option<bool>, resolve_support: Option<ClientCodeActionResolveOptions>) -> Self { Self { dynamic_registration, code_action_literal_support, is_preferred_support, disabled_support, data_support, resolve_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCodeActionLiteralOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action_kind: Option<LspAny>,
}
impl ClientCodeActionLiteralOptions { pub const fn new(code_action_kind: Option<LspAny>) -> Self { Self { code_action_kind } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCodeActionResolveOptions {
    #[serde(default)]
    pub properties: Vec<String>,
}
impl ClientCodeActionResolveOptions { pub const fn new(properties: Vec<String>) -> Self { Self { properties } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_support: Option<ClientInlayHintResolveOptions>,
}
impl InlayHintClientCapabilities { pub const fn new(dynamic_registration: Option<bool>, resolve_support: Option<ClientInlayHintResolveOptions>) -> Self { Self { dynamic_registration, resolve_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientInlayHintResolveOptions {
    #[serde(default)]
    pub properties: Vec<String>,
}
impl ClientInlayHintResolveOptions { pub const fn new(properties: Vec<String>) -> Self { Self { properties } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_document_support: Option<bool>,
}
impl DiagnosticClientCapabilities { pub const fn new(dynamic_registration: Option<bool>, related_document_support: Option<bool>) -> Self { Self { dynamic_registration, related_document_support } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy)]
#[serde(rename_all = "camelCase")]
pub struct WindowClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub work_done_progress: Option<bool>,
}
impl WindowClientCapabilities { pub const fn new(work_done_progress: Option<bool>) -> Self { Self { work_done_progress } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct GeneralClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub position_encodings: Option<Vec<PositionEncodingKind>>,
}
impl GeneralClientCapabilities { pub const fn new(position_encodings: Option<Vec<PositionEncodingKind>>) -> Self { Self { position_encodings } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DiagnosticSeverity { Error = 1, Warning = 2, Information = 3, Hint = 4 }
impl Serialize for DiagnosticSeverity { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for DiagnosticSeverity { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(DiagnosticSeverity::Error), 2 => Ok(DiagnosticSeverity::Warning), 3 => Ok(DiagnosticSeverity::Information), 4 => Ok(DiagnosticSeverity::Hint), _ => Err(serde::de::Error::custom(format!("unknown DiagnosticSeverity: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DiagnosticTag { Unnecessary = 1, Deprecated = 2 }
impl Serialize for DiagnosticTag { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for DiagnosticTag { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(DiagnosticTag::Unnecessary), 2 => Ok(DiagnosticTag::Deprecated), _ => Err(serde::de::Error::custom(format!("unknown DiagnosticTag: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SymbolKind { File = 1, Module = 2, Namespace = 3, Package = 4, Class = 5, Method = 6, Property = 7, Field = 8, Constructor = 9, Enum = 10, Interface = 11, Function = 12, Variable = 13, Constant = 14, String = 15, Number = 16, Boolean = 17, Array = 18, Object = 19, Key = 20, Null = 21, EnumMember = 22, Struct = 23, Event = 24, Operator = 25, TypeParameter = 26 }
impl Serialize for SymbolKind { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for SymbolKind { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(SymbolKind::File), 2 => Ok(SymbolKind::Module), 3 => Ok(SymbolKind::Namespace), 4 => Ok(SymbolKind::Package), 5 => Ok(SymbolKind::Class), 6 => Ok(SymbolKind::Method), 7 => Ok(SymbolKind::Property), 8 => Ok(SymbolKind::Field), 9 => Ok(SymbolKind::Constructor), 10 => Ok(SymbolKind::Enum), 11 => Ok(SymbolKind::Interface), 12 => Ok(SymbolKind::Function), 13 => Ok(SymbolKind::Variable), 14 => Ok(SymbolKind::Constant), 15 => Ok(SymbolKind::String), 16 => Ok(SymbolKind::Number), 17 => Ok(SymbolKind::Boolean), 18 => Ok(SymbolKind::Array), 19 => Ok(SymbolKind::Object), 20 => Ok(SymbolKind::Key), 21 => Ok(SymbolKind::Null), 22 => Ok(SymbolKind::EnumMember), 23 => Ok(SymbolKind::Struct), 24 => Ok(SymbolKind::Event), 25 => Ok(SymbolKind::Operator), 26 => Ok(SymbolKind::TypeParameter), _ => Err(serde::de::Error::custom(format!("unknown SymbolKind: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SymbolTag { Deprecated = 1 }
impl Serialize for SymbolTag { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for SymbolTag { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(SymbolTag::Deprecated), _ => Err(serde::de::Error::custom(format!("unknown SymbolTag: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CompletionItemTag { Deprecated = 1 }
impl Serialize for CompletionItemTag { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for CompletionItemTag { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(CompletionItemTag::Deprecated), _ => Err(serde::de::Error::custom(format!("unknown CompletionItemTag: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CodeActionTag { LLMGenerated = 1 }
impl Serialize for CodeActionTag { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for CodeActionTag { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(CodeActionTag::LLMGenerated), _ => Err(serde::de::Error::custom(format!("unknown CodeActionTag: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CompletionItemKind { Text = 1, Method = 2, Function = 3, Constructor = 4, Field = 5, Variable = 6, Class = 7, Interface = 8, Module = 9, Property = 10, Unit = 11, Value = 12, Enum = 13, Keyword = 14, Snippet = 15, Color = 16, File = 17, Reference = 18, Folder = 19, EnumMember = 20, Constant = 21, Struct = 22, Event = 23, Operator = 24, TypeParameter = 25 }
impl Serialize for CompletionItemKind { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for CompletionItemKind { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(CompletionItemKind::Text), 2 => Ok(CompletionItemKind::Method), 3 => Ok(CompletionItemKind::Function), 4 => Ok(CompletionItemKind::Constructor), 5 => Ok(CompletionItemKind::Field), 6 => Ok(CompletionItemKind::Variable), 7 => Ok(CompletionItemKind::Class), 8 => Ok(CompletionItemKind::Interface), 9 => Ok(CompletionItemKind::Module), 10 => Ok(CompletionItemKind::Property), 11 => Ok(CompletionItemKind::Unit), 12 => Ok(CompletionItemKind::Value), 13 => Ok(CompletionItemKind::Enum), 14 => Ok(CompletionItemKind::Keyword), 15 => Ok(CompletionItemKind::Snippet), 16 => Ok(CompletionItemKind::Color), 17 => Ok(CompletionItemKind::File), 18 => Ok(CompletionItemKind::Reference), 19 => Ok(CompletionItemKind::Folder), 20 => Ok(CompletionItemKind::EnumMember), 21 => Ok(CompletionItemKind::Constant), 22 => Ok(CompletionItemKind::Struct), 23 => Ok(CompletionItemKind::Event), 24 => Ok(CompletionItemKind::Operator), 25 => Ok(CompletionItemKind::TypeParameter), _ => Err(serde::de::Error::custom(format!("unknown CompletionItemKind: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CompletionTriggerKind { Invoked = 1, TriggerCharacter = 2, TriggerForIncompleteCompletions = 3 }
impl Serialize for CompletionTriggerKind { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for CompletionTriggerKind { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(CompletionTriggerKind::Invoked), 2 => Ok(CompletionTriggerKind::TriggerCharacter), 3 => Ok(CompletionTriggerKind::TriggerForIncompleteCompletions), _ => Err(serde::de::Error::custom(format!("unknown CompletionTriggerKind: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CodeActionTriggerKind { Invoked = 1, Automatic = 2 }
impl Serialize for CodeActionTriggerKind { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for CodeActionTriggerKind { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(CodeActionTriggerKind::Invoked), 2 => Ok(CodeActionTriggerKind::Automatic), _ => Err(serde::de::Error::custom(format!("unknown CodeActionTriggerKind: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum InsertTextFormat { PlainText = 1, Snippet = 2 }
impl Serialize for InsertTextFormat { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for InsertTextFormat { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(InsertTextFormat::PlainText), 2 => Ok(InsertTextFormat::Snippet), _ => Err(serde::de::Error::custom(format!("unknown InsertTextFormat: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum InsertTextMode { AsIs = 1, AdjustIndentation = 2 }
impl Serialize for InsertTextMode { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for InsertTextMode { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(InsertTextMode::AsIs), 2 => Ok(InsertTextMode::AdjustIndentation), _ => Err(serde::de::Error::custom(format!("unknown InsertTextMode: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum InlayHintKind { Type = 1, Parameter = 2 }
impl Serialize for InlayHintKind { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for InlayHintKind { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(InlayHintKind::Type), 2 => Ok(InlayHintKind::Parameter), _ => Err(serde::de::Error::custom(format!("unknown InlayHintKind: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DocumentHighlightKind { Text = 1, Read = 2, Write = 3 }
impl Serialize for DocumentHighlightKind { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for DocumentHighlightKind { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(DocumentHighlightKind::Text), 2 => Ok(DocumentHighlightKind::Read), 3 => Ok(DocumentHighlightKind::Write), _ => Err(serde::de::Error::custom(format!("unknown DocumentHighlightKind: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TextDocumentSyncKind { None = 0, Full = 1, Incremental = 2 }
impl Serialize for TextDocumentSyncKind { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for TextDocumentSyncKind { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 0 => Ok(TextDocumentSyncKind::None), 1 => Ok(TextDocumentSyncKind::Full), 2 => Ok(TextDocumentSyncKind::Incremental), _ => Err(serde::de::Error::custom(format!("unknown TextDocumentSyncKind: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MessageType { Error = 1, Warning = 2, Info = 3, Log = 4, Debug = 5 }
impl Serialize for MessageType { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for MessageType { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(MessageType::Error), 2 => Ok(MessageType::Warning), 3 => Ok(MessageType::Info), 4 => Ok(MessageType::Log), 5 => Ok(MessageType::Debug), _ => Err(serde::de::Error::custom(format!("unknown MessageType: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FileChangeType { Created = 1, Changed = 2, Deleted = 3 }
impl Serialize for FileChangeType { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for FileChangeType { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(FileChangeType::Created), 2 => Ok(FileChangeType::Changed), 3 => Ok(FileChangeType::Deleted), _ => Err(serde::de::Error::custom(format!("unknown FileChangeType: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum WatchKind { Create = 1, Change = 2, Delete = 4 }
impl Serialize for WatchKind { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> Deserialize<'de> for WatchKind { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = u32::deserialize(d)?; match n { 1 => Ok(WatchKind::Create), 2 => Ok(WatchKind::Change), 4 => Ok(WatchKind::Delete), _ => Err(serde::de::Error::custom(format!("unknown WatchKind: {n}"))) } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum ResourceOperationKind {
    #[serde(rename = "create")] Create,
    #[serde(rename = "rename")] Rename,
    #[serde(rename = "delete")] Delete,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum MarkupKind {
    #[serde(rename = "plaintext")] PlainText,
    #[serde(rename = "markdown")] Markdown,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum CodeActionKind { Empty, QuickFix, Refactor, RefactorExtract, RefactorInline, RefactorMove, RefactorRewrite, Source, SourceOrganizeImports, SourceFixAll, Notebook, Custom(std::borrow::Cow<'static, str>) }
impl CodeActionKind {
    pub const fn new(s: &'static str) -> Self { Self::Custom(std::borrow::Cow::Borrowed(s)) }
    pub fn as_str(&self) -> &str { match self { Self::Empty => "", Self::QuickFix => "quickfix", Self::Refactor => "refactor", Self::RefactorExtract => "refactor.extract", Self::RefactorInline => "refactor.inline", Self::RefactorMove => "refactor.move", Self::RefactorRewrite => "refactor.rewrite", Self::Source => "source", Self::SourceOrganizeImports => "source.organizeImports", Self::SourceFixAll => "source.fixAll", Self::Notebook => "notebook", Self::Custom(s) => s } }
}
impl Serialize for CodeActionKind { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(self.as_str()) } }
impl<'de> Deserialize<'de> for CodeActionKind { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = String::deserialize(d)?; Ok(match n.as_str() { "" => Self::Empty, "quickfix" => Self::QuickFix, "refactor" => Self::Refactor, "refactor.extract" => Self::RefactorExtract, "refactor.inline" => Self::RefactorInline, "refactor.move" => Self::RefactorMove, "refactor.rewrite" => Self::RefactorRewrite, "source" => Self::Source, "source.organizeImports" => Self::SourceOrganizeImports, "source.fixAll" => Self::SourceFixAll, "notebook" => Self::Notebook, _ => Self::Custom(n.into()) }) } }
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum SemanticTokenTypes { Namespace, Type, Class, Enum, Interface, Struct, TypeParameter, Parameter, Variable, Property, EnumMember, Event, Function, Method, Macro, Keyword, Modifier, Comment, String, Number, Regexp, Operator, Decorator, Label, Custom(std::borrow::Cow<'static, str>) }
impl SemanticTokenTypes {
    pub const fn new(s: &'static str) -> Self { Self::Custom(std::borrow::Cow::Borrowed(s)) }
    pub fn as_str(&self) -> &str { match self { Self::Namespace => "namespace", Self::Type => "type", Self::Class => "class", Self::Enum => "enum", Self::Interface => "interface", Self::Struct => "struct", Self::TypeParameter => "typeParameter", Self::Parameter => "parameter", Self::Variable => "variable", Self::Property => "property", Self::EnumMember => "enumMember", Self::Event => "event", Self::Function => "function", Self::Method => "method", Self::Macro => "macro", Self::Keyword => "keyword", Self::Modifier => "modifier", Self::Comment => "comment", Self::String => "string", Self::Number => "number", Self::Regexp => "regexp", Self::Operator => "operator", Self::Decorator => "decorator", Self::Label => "label", Self::Custom(s) => s } }
}
impl Serialize for SemanticTokenTypes { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(self.as_str()) } }
impl<'de> Deserialize<'de> for SemanticTokenTypes { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let n = String::deserialize(d)?; Ok(match n.as_str() { "namespace" => Self::Namespace, "type" => Self::Type, "class" => Self::Class, "enum" => Self::Enum, "interface" => Self::Interface, "struct" => Self::Struct, "typeParameter" => Self::TypeParameter, "parameter" => Self::Parameter, "variable" => Self::Variable, "property" => Self::Property, "enumMember" => Self::EnumMember, "event" => Self::Event, "function" => Self::Function, "method" => Self::Method, "macro" => Self::Macro, "keyword" => Self::Keyword, "modifier" => Self::Modifier, "comment" => Self::Comment, "string" => Self::String, "number" => Self::Number, "regexp" => Self::Regexp, "operator" => Self::Operator, "decorator" => Self::Decorator, "label" => Self::Label, _ => Self::Custom(n.into()) }) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum ProgressToken { Int(i32), String(String) }
impl From<i32> for ProgressToken { fn from(x: i32) -> Self { ProgressToken::Int(x) } }
impl From<String> for ProgressToken { fn from(x: String) -> Self { ProgressToken::String(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum Id { Int(i32), String(String) }
impl From<i32> for Id { fn from(x: i32) -> Self { Id::Int(x) } }
impl From<String> for Id { fn from(x: String) -> Self { Id::String(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum Code { Int(i32), String(String) }
impl From<i32> for Code { fn from(x: i32) -> Self { Code::Int(x) } }
impl From<String> for Code { fn from(x: String) -> Self { Code::String(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum Documentation { String(String), MarkupContent(MarkupContent) }
impl From<String> for Documentation { fn from(x: String) -> Self { Documentation::String(x) } }
impl From<MarkupContent> for Documentation { fn from(x: MarkupContent) -> Self { Documentation::MarkupContent(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum Tooltip { String(String), MarkupContent(MarkupContent) }
impl From<String> for Tooltip { fn from(x: String) -> Self { Tooltip::String(x) } }
impl From<MarkupContent> for Tooltip { fn from(x: MarkupContent) -> Self { Tooltip::MarkupContent(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum Label { String(String), InlayHintLabelPartList(Vec<InlayHintLabelPart>) }
impl From<String> for Label { fn from(x: String) -> Self { Label::String(x) } }
impl From<Vec<InlayHintLabelPart>> for Label { fn from(x: Vec<InlayHintLabelPart>) -> Self { Label::InlayHintLabelPartList(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum Contents { MarkupContent(MarkupContent), String(String) }
impl From<MarkupContent> for Contents { fn from(x: MarkupContent) -> Self { Contents::MarkupContent(x) } }
impl From<String> for Contents { fn from(x: String) -> Self { Contents::String(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum ParameterInformationLabel { String(String), Tuple((u32,u32)) }
impl From<String> for ParameterInformationLabel { fn from(x: String) -> Self { ParameterInformationLabel::String(x) } }
impl From<(u32,u32)> for ParameterInformationLabel { fn from(x: (u32,u32)) -> Self { ParameterInformationLabel::Tuple(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum BaseUri { WorkspaceFolder(WorkspaceFolder), Uri(Uri) }
impl From<WorkspaceFolder> for BaseUri { fn from(x: WorkspaceFolder) -> Self { BaseUri::WorkspaceFolder(x) } }
impl From<Uri> for BaseUri { fn from(x: Uri) -> Self { BaseUri::Uri(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum GlobPattern { Pattern(String), RelativePattern(RelativePattern) }
impl From<String> for GlobPattern { fn from(x: String) -> Self { GlobPattern::Pattern(x) } }
impl From<RelativePattern> for GlobPattern { fn from(x: RelativePattern) -> Self { GlobPattern::RelativePattern(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum TextDocumentContentChangeEvent { TextDocumentContentChangePartial(TextDocumentContentChangePartial), TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument) }
impl From<TextDocumentContentChangePartial> for TextDocumentContentChangeEvent { fn from(x: TextDocumentContentChangePartial) -> Self { TextDocumentContentChangeEvent::TextDocumentContentChangePartial(x) } }
impl From<TextDocumentContentChangeWholeDocument> for TextDocumentContentChangeEvent { fn from(x: TextDocumentContentChangeWholeDocument) -> Self { TextDocumentContentChangeEvent::TextDocumentContentChangeWholeDocument(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum CompletionItemTextEdit { InsertReplaceEdit(InsertReplaceEdit), TextEdit(TextEdit) }
impl From<InsertReplaceEdit> for CompletionItemTextEdit { fn from(x: InsertReplaceEdit) -> Self { CompletionItemTextEdit::InsertReplaceEdit(x) } }
impl From<TextEdit> for CompletionItemTextEdit { fn from(x: TextEdit) -> Self { CompletionItemTextEdit::TextEdit(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum Edit { AnnotatedTextEdit(AnnotatedTextEdit), TextEdit(TextEdit) }
impl From<AnnotatedTextEdit> for Edit { fn from(x: AnnotatedTextEdit) -> Self { Edit::AnnotatedTextEdit(x) } }
impl From<TextEdit> for Edit { fn from(x: TextEdit) -> Self { Edit::TextEdit(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum DocumentChange { TextDocumentEdit(TextDocumentEdit), CreateFile(CreateFile), RenameFile(RenameFile), DeleteFile(DeleteFile) }
impl From<TextDocumentEdit> for DocumentChange { fn from(x: TextDocumentEdit) -> Self { DocumentChange::TextDocumentEdit(x) } }
impl From<CreateFile> for DocumentChange { fn from(x: CreateFile) -> Self { DocumentChange::CreateFile(x) } }
impl From<RenameFile> for DocumentChange { fn from(x: RenameFile) -> Self { DocumentChange::RenameFile(x) } }
impl From<DeleteFile> for DocumentChange { fn from(x: DeleteFile) -> Self { DocumentChange::DeleteFile(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum Definition { Location(Location), LocationList(Vec<Location>) }
impl From<Location> for Definition { fn from(x: Location) -> Self { Definition::Location(x) } }
impl From<Vec<Location>> for Definition { fn from(x: Vec<Location>) -> Self { Definition::LocationList(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum DefinitionResponse { Definition(Definition), DefinitionLinkList(Vec<LocationLink>) }
impl From<Definition> for DefinitionResponse { fn from(x: Definition) -> Self { DefinitionResponse::Definition(x) } }
impl From<Vec<LocationLink>> for DefinitionResponse { fn from(x: Vec<LocationLink>) -> Self { DefinitionResponse::DefinitionLinkList(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum DocumentSymbolResponse { DocumentSymbolList(Vec<DocumentSymbol>), SymbolInformationList(Vec<SymbolInformation>) }
impl From<Vec<DocumentSymbol>> for DocumentSymbolResponse { fn from(x: Vec<DocumentSymbol>) -> Self { DocumentSymbolResponse::DocumentSymbolList(x) } }
impl From<Vec<SymbolInformation>> for DocumentSymbolResponse { fn from(x: Vec<SymbolInformation>) -> Self { DocumentSymbolResponse::SymbolInformationList(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum WorkspaceSymbolResponse { WorkspaceSymbolList(Vec<WorkspaceSymbol>), SymbolInformationList(Vec<SymbolInformation>) }
impl From<Vec<WorkspaceSymbol>> for WorkspaceSymbolResponse { fn from(x: Vec<WorkspaceSymbol>) -> Self { WorkspaceSymbolResponse::WorkspaceSymbolList(x) } }
impl From<Vec<SymbolInformation>> for WorkspaceSymbolResponse { fn from(x: Vec<SymbolInformation>) -> Self { WorkspaceSymbolResponse::SymbolInformationList(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum WorkspaceSymbolLocation { Location(Location), LocationUriOnly(LocationUriOnly) }
impl From<Location> for WorkspaceSymbolLocation { fn from(x: Location) -> Self { WorkspaceSymbolLocation::Location(x) } }
impl From<LocationUriOnly> for WorkspaceSymbolLocation { fn from(x: LocationUriOnly) -> Self { WorkspaceSymbolLocation::LocationUriOnly(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum DocumentDiagnosticReport { RelatedFullDocumentDiagnosticReport(RelatedFullDocumentDiagnosticReport), RelatedUnchangedDocumentDiagnosticReport(RelatedUnchangedDocumentDiagnosticReport) }
impl From<RelatedFullDocumentDiagnosticReport> for DocumentDiagnosticReport { fn from(x: RelatedFullDocumentDiagnosticReport) -> Self { DocumentDiagnosticReport::RelatedFullDocumentDiagnosticReport(x) } }
impl From<RelatedUnchangedDocumentDiagnosticReport> for DocumentDiagnosticReport { fn from(x: RelatedUnchangedDocumentDiagnosticReport) -> Self { DocumentDiagnosticReport::RelatedUnchangedDocumentDiagnosticReport(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum CodeActionResponse { CodeAction(CodeAction), Command(Command) }
impl From<CodeAction> for CodeActionResponse { fn from(x: CodeAction) -> Self { CodeActionResponse::CodeAction(x) } }
impl From<Command> for CodeActionResponse { fn from(x: Command) -> Self { CodeActionResponse::Command(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum CompletionResponse { CompletionList(CompletionList), CompletionItemList(Vec<CompletionItem>) }
impl From<CompletionList> for CompletionResponse { fn from(x: CompletionList) -> Self { CompletionResponse::CompletionList(x) } }
impl From<Vec<CompletionItem>> for CompletionResponse { fn from(x: Vec<CompletionItem>) -> Self { CompletionResponse::CompletionItemList(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum PrepareRenameResult { Range(Range), Placeholder(PrepareRenamePlaceholder) }
impl From<Range> for PrepareRenameResult { fn from(x: Range) -> Self { PrepareRenameResult::Range(x) } }
impl From<PrepareRenamePlaceholder> for PrepareRenameResult { fn from(x: PrepareRenamePlaceholder) -> Self { PrepareRenameResult::Placeholder(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum Full { Bool(bool), SemanticTokensFullDelta(SemanticTokensFullDelta) }
impl From<bool> for Full { fn from(x: bool) -> Self { Full::Bool(x) } }
impl From<SemanticTokensFullDelta> for Full { fn from(x: SemanticTokensFullDelta) -> Self { Full::SemanticTokensFullDelta(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum HoverProvider { Bool(bool), HoverOptions(HoverOptions) }
impl From<bool> for HoverProvider { fn from(x: bool) -> Self { HoverProvider::Bool(x) } }
impl From<HoverOptions> for HoverProvider { fn from(x: HoverOptions) -> Self { HoverProvider::HoverOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum DefinitionProvider { Bool(bool), DefinitionOptions(DefinitionOptions) }
impl From<bool> for DefinitionProvider { fn from(x: bool) -> Self { DefinitionProvider::Bool(x) } }
impl From<DefinitionOptions> for DefinitionProvider { fn from(x: DefinitionOptions) -> Self { DefinitionProvider::DefinitionOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum ReferencesProvider { Bool(bool), ReferenceOptions(ReferenceOptions) }
impl From<bool> for ReferencesProvider { fn from(x: bool) -> Self { ReferencesProvider::Bool(x) } }
impl From<ReferenceOptions> for ReferencesProvider { fn from(x: ReferenceOptions) -> Self { ReferencesProvider::ReferenceOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum DocumentHighlightProvider { Bool(bool), DocumentHighlightOptions(DocumentHighlightOptions) }
impl From<bool> for DocumentHighlightProvider { fn from(x: bool) -> Self { DocumentHighlightProvider::Bool(x) } }
impl From<DocumentHighlightOptions> for DocumentHighlightProvider { fn from(x: DocumentHighlightOptions) -> Self { DocumentHighlightProvider::DocumentHighlightOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum DocumentSymbolProvider { Bool(bool), DocumentSymbolOptions(DocumentSymbolOptions) }
impl From<bool> for DocumentSymbolProvider { fn from(x: bool) -> Self { DocumentSymbolProvider::Bool(x) } }
impl From<DocumentSymbolOptions> for DocumentSymbolProvider { fn from(x: DocumentSymbolOptions) -> Self { DocumentSymbolProvider::DocumentSymbolOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum WorkspaceSymbolProvider { Bool(bool), WorkspaceSymbolOptions(WorkspaceSymbolOptions) }
impl From<bool> for WorkspaceSymbolProvider { fn from(x: bool) -> Self { WorkspaceSymbolProvider::Bool(x) } }
impl From<WorkspaceSymbolOptions> for WorkspaceSymbolProvider { fn from(x: WorkspaceSymbolOptions) -> Self { WorkspaceSymbolProvider::WorkspaceSymbolOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum DocumentFormattingProvider { Bool(bool), DocumentFormattingOptions(DocumentFormattingOptions) }
impl From<bool> for DocumentFormattingProvider { fn from(x: bool) -> Self { DocumentFormattingProvider::Bool(x) } }
impl From<DocumentFormattingOptions> for DocumentFormattingProvider { fn from(x: DocumentFormattingOptions) -> Self { DocumentFormattingProvider::DocumentFormattingOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum SelectionRangeProvider { Bool(bool), SelectionRangeOptions(SelectionRangeOptions) }
impl From<bool> for SelectionRangeProvider { fn from(x: bool) -> Self { SelectionRangeProvider::Bool(x) } }
impl From<SelectionRangeOptions> for SelectionRangeProvider { fn from(x: SelectionRangeOptions) -> Self { SelectionRangeProvider::SelectionRangeOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum RenameProvider { Bool(bool), RenameOptions(RenameOptions) }
impl From<bool> for RenameProvider { fn from(x: bool) -> Self { RenameProvider::Bool(x) } }
impl From<RenameOptions> for RenameProvider { fn from(x: RenameOptions) -> Self { RenameProvider::RenameOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum CodeActionProvider { Bool(bool), CodeActionOptions(CodeActionOptions) }
impl From<bool> for CodeActionProvider { fn from(x: bool) -> Self { CodeActionProvider::Bool(x) } }
impl From<CodeActionOptions> for CodeActionProvider { fn from(x: CodeActionOptions) -> Self { CodeActionProvider::CodeActionOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum InlayHintProvider { Bool(bool), InlayHintOptions(InlayHintOptions) }
impl From<bool> for InlayHintProvider { fn from(x: bool) -> Self { InlayHintProvider::Bool(x) } }
impl From<InlayHintOptions> for InlayHintProvider { fn from(x: InlayHintOptions) -> Self { InlayHintProvider::InlayHintOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum DiagnosticProvider { DiagnosticOptions(DiagnosticOptions) }
impl From<DiagnosticOptions> for DiagnosticProvider { fn from(x: DiagnosticOptions) -> Self { DiagnosticProvider::DiagnosticOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum SemanticTokensProvider { SemanticTokensOptions(SemanticTokensOptions) }
impl From<SemanticTokensOptions> for SemanticTokensProvider { fn from(x: SemanticTokensOptions) -> Self { SemanticTokensProvider::SemanticTokensOptions(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum TextDocumentSync { Kind(TextDocumentSyncKind), Options(TextDocumentSyncOptions) }
impl From<TextDocumentSyncKind> for TextDocumentSync { fn from(x: TextDocumentSyncKind) -> Self { TextDocumentSync::Kind(x) } }
impl From<TextDocumentSyncOptions> for TextDocumentSync { fn from(x: TextDocumentSyncOptions) -> Self { TextDocumentSync::Options(x) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
#[allow(clippy::large_enum_variant)]
pub enum WorkspaceFolders { WorkspaceFolderList(Vec<WorkspaceFolder>), Null }
impl From<Vec<WorkspaceFolder>> for WorkspaceFolders { fn from(x: Vec<WorkspaceFolder>) -> Self { WorkspaceFolders::WorkspaceFolderList(x) } }
#[derive(Debug)] pub enum ShutdownRequest {}
impl Request for ShutdownRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("shutdown"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum InitializeRequest {}
impl Request for InitializeRequest { type Params = InitializeParams; type Result = InitializeResult; const METHOD: LspRequestMethod = LspRequestMethod::new("initialize"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum ShowMessageRequest {}
impl Request for ShowMessageRequest { type Params = ShowMessageRequestParams; type Result = Option<MessageActionItem>; const METHOD: LspRequestMethod = LspRequestMethod::new("window/showMessageRequest"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum RegistrationRequest {}
impl Request for RegistrationRequest { type Params = RegistrationParams; type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("client/registerCapability"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum UnregistrationRequest {}
impl Request for UnregistrationRequest { type Params = UnregistrationParams; type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("client/unregisterCapability"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum WorkDoneProgressCreateRequest {}
impl Request for WorkDoneProgressCreateRequest { type Params = WorkDoneProgressCreateParams; type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("window/workDoneProgress/create"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum ConfigurationRequest {}
impl Request for ConfigurationRequest { type Params = ConfigurationParams; type Result = Vec<LspAny>; const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/configuration"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum SemanticTokensRequest {}
impl Request for SemanticTokensRequest { type Params = SemanticTokensParams; type Result = Option<SemanticTokens>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/semanticTokens/full"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum SemanticTokensRangeRequest {}
impl Request for SemanticTokensRangeRequest { type Params = SemanticTokensRangeParams; type Result = Option<SemanticTokens>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/semanticTokens/range"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum SemanticTokensRefreshRequest {}
impl Request for SemanticTokensRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/semanticTokens/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum SelectionRangeRequest {}
impl Request for SelectionRangeRequest { type Params = SelectionRangeParams; type Result = Option<Vec<SelectionRange>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/selectionRange"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum RenameRequest {}
impl Request for RenameRequest { type Params = RenameParams; type Result = Option<WorkspaceEdit>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/rename"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum PrepareRenameRequest {}
impl Request for PrepareRenameRequest { type Params = PrepareRenameParams; type Result = Option<PrepareRenameResult>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/prepareRename"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum ReferencesRequest {}
impl Request for ReferencesRequest { type Params = ReferenceParams; type Result = Option<Vec<Location>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/references"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum InlayHintRequest {}
impl Request for InlayHintRequest { type Params = InlayHintParams; type Result = Option<Vec<InlayHint>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/inlayHint"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum InlayHintResolveRequest {}
impl Request for InlayHintResolveRequest { type Params = InlayHint; type Result = InlayHint; const METHOD: LspRequestMethod = LspRequestMethod::new("inlayHint/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum InlayHintRefreshRequest {}
impl Request for InlayHintRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/inlayHint/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum HoverRequest {}
impl Request for HoverRequest { type Params = HoverParams; type Result = Option<Hover>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/hover"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum SignatureHelpRequest {}
impl Request for SignatureHelpRequest { type Params = SignatureHelpParams; type Result = Option<SignatureHelp>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/signatureHelp"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DocumentSymbolRequest {}
impl Request for DocumentSymbolRequest { type Params = DocumentSymbolParams; type Result = Option<DocumentSymbolResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/documentSymbol"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DocumentHighlightRequest {}
impl Request for DocumentHighlightRequest { type Params = DocumentHighlightParams; type Result = Option<Vec<DocumentHighlight>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/documentHighlight"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DocumentFormattingRequest {}
impl Request for DocumentFormattingRequest { type Params = DocumentFormattingParams; type Result = Option<Vec<TextEdit>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/formatting"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DocumentDiagnosticRequest {}
impl Request for DocumentDiagnosticRequest { type Params = DocumentDiagnosticParams; type Result = DocumentDiagnosticReport; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/diagnostic"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DiagnosticRefreshRequest {}
impl Request for DiagnosticRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/diagnostic/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum DefinitionRequest {}
impl Request for DefinitionRequest { type Params = DefinitionParams; type Result = Option<DefinitionResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/definition"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum CompletionRequest {}
impl Request for CompletionRequest { type Params = CompletionParams; type Result = Option<CompletionResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/completion"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum CompletionResolveRequest {}
impl Request for CompletionResolveRequest { type Params = CompletionItem; type Result = CompletionItem; const METHOD: LspRequestMethod = LspRequestMethod::new("completionItem/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum CodeLensRequest {}
impl Request for CodeLensRequest { type Params = CodeLensParams; type Result = Option<Vec<CodeLens>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/codeLens"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum CodeLensResolveRequest {}
impl Request for CodeLensResolveRequest { type Params = CodeLens; type Result = CodeLens; const METHOD: LspRequestMethod = LspRequestMethod::new("codeLens/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum CodeLensRefreshRequest {}
impl Request for CodeLensRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/codeLens/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum CodeActionRequest {}
impl Request for CodeActionRequest { type Params = CodeActionParams; type Result = Option<Vec<CodeActionResponse>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/codeAction"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum CodeActionResolveRequest {}
impl Request for CodeActionResolveRequest { type Params = CodeAction; type Result = CodeAction; const METHOD: LspRequestMethod = LspRequestMethod::new("codeAction/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum WorkspaceSymbolRequest {}
impl Request for WorkspaceSymbolRequest { type Params = WorkspaceSymbolParams; type Result = Option<WorkspaceSymbolResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/symbol"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum ShowMessageNotification {}
impl Notification for ShowMessageNotification { type Params = ShowMessageParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("window/showMessage"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum LogMessageNotification {}
impl Notification for LogMessageNotification { type Params = LogMessageParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("window/logMessage"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum ProgressNotification {}
impl Notification for ProgressNotification { type Params = ProgressParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("$/progress"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::Both; }
#[derive(Debug)] pub enum WorkDoneProgressCancelNotification {}
impl Notification for WorkDoneProgressCancelNotification { type Params = WorkDoneProgressCancelParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("window/workDoneProgress/cancel"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum InitializedNotification {}
impl Notification for InitializedNotification { type Params = InitializedParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("initialized"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum ExitNotification {}
impl Notification for ExitNotification { type Params = (); const METHOD: LspNotificationMethod = LspNotificationMethod::new("exit"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum CancelNotification {}
impl Notification for CancelNotification { type Params = CancelParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("$/cancelRequest"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::Both; }
#[derive(Debug)] pub enum PublishDiagnosticsNotification {}
impl Notification for PublishDiagnosticsNotification { type Params = PublishDiagnosticsParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/publishDiagnostics"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug)] pub enum DidOpenTextDocumentNotification {}
impl Notification for DidOpenTextDocumentNotification { type Params = DidOpenTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didOpen"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DidChangeTextDocumentNotification {}
impl Notification for DidChangeTextDocumentNotification { type Params = DidChangeTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didChange"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DidCloseTextDocumentNotification {}
impl Notification for DidCloseTextDocumentNotification { type Params = DidCloseTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didClose"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DidSaveTextDocumentNotification {}
impl Notification for DidSaveTextDocumentNotification { type Params = DidSaveTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didSave"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DidChangeWorkspaceFoldersNotification {}
impl Notification for DidChangeWorkspaceFoldersNotification { type Params = DidChangeWorkspaceFoldersParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("workspace/didChangeWorkspaceFolders"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DidChangeWatchedFilesNotification {}
impl Notification for DidChangeWatchedFilesNotification { type Params = DidChangeWatchedFilesParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("workspace/didChangeWatchedFiles"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug)] pub enum DidChangeConfigurationNotification {}
impl Notification for DidChangeConfigurationNotification { type Params = DidChangeConfigurationParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("workspace/didChangeConfiguration"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
