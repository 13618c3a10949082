//! Stand-in for lsp-server 0.8 (not in the cargo cache), over the simulated channels.
//! Same public API as used by the server; `Connection::stdio` connects to a client installed by
//! the simulation with `sim::install_stdio`.
use crossbeam_channel::{Receiver, RecvError, RecvTimeoutError, Sender, bounded, unbounded};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::fmt;
use std::io::{self, BufRead, Write};
use std::time::Duration;

#[derive(Serialize, Deserialize, Debug, Clone)]
#[serde(untagged)]
pub enum Message {
    Request(Request),
    Response(Response),
    Notification(Notification),
}

impl From<Request> for Message {
    fn from(r: Request) -> Message {
        Message::Request(r)
    }
}
impl From<Response> for Message {
    fn from(r: Response) -> Message {
        Message::Response(r)
    }
}
impl From<Notification> for Message {
    fn from(r: Notification) -> Message {
        Message::Notification(r)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Deserialize, Serialize)]
#[serde(transparent)]
pub struct RequestId(IdRepr);

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Deserialize, Serialize)]
#[serde(untagged)]
enum IdRepr {
    I32(i32),
    String(String),
}

impl From<i32> for RequestId {
    fn from(id: i32) -> RequestId {
        RequestId(IdRepr::I32(id))
    }
}
impl From<String> for RequestId {
    fn from(id: String) -> RequestId {
        RequestId(IdRepr::String(id))
    }
}
impl fmt::Display for RequestId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            IdRepr::I32(it) => fmt::Display::fmt(it, f),
            IdRepr::String(it) => fmt::Debug::fmt(it, f),
        }
    }
}

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Request {
    pub id: RequestId,
    pub method: String,
    #[serde(default = "serde_json::Value::default")]
    #[serde(skip_serializing_if = "serde_json::Value::is_null")]
    pub params: serde_json::Value,
}

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Response {
    pub id: RequestId,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub result: Option<serde_json::Value>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub error: Option<ResponseError>,
}

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct ResponseError {
    pub code: i32,
    pub message: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub data: Option<serde_json::Value>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum ErrorCode {
    ParseError = -32700,
    InvalidRequest = -32600,
    MethodNotFound = -32601,
    InvalidParams = -32602,
    InternalError = -32603,
    ServerErrorStart = -32099,
    ServerErrorEnd = -32000,
    ServerNotInitialized = -32002,
    UnknownErrorCode = -32001,
    RequestCanceled = -32800,
    ContentModified = -32801,
    ServerCancelled = -32802,
    RequestFailed = -32803,
}

#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Notification {
    pub method: String,
    #[serde(default = "serde_json::Value::default")]
    #[serde(skip_serializing_if = "serde_json::Value::is_null")]
    pub params: serde_json::Value,
}

impl Response {
    pub fn new_ok<R: Serialize>(id: RequestId, result: R) -> Response {
        Response { id, result: Some(serde_json::to_value(result).unwrap()), error: None }
    }
    pub fn new_err(id: RequestId, code: i32, message: String) -> Response {
        Response { id, result: None, error: Some(ResponseError { code, message, data: None }) }
    }
}

impl Request {
    pub fn new<P: Serialize>(id: RequestId, method: String, params: P) -> Request {
        Request { id, method, params: serde_json::to_value(params).unwrap() }
    }
    pub fn extract<P: DeserializeOwned>(self, method: &str) -> Result<(RequestId, P), ExtractError<Request>> {
        if self.method != method {
            return Err(ExtractError::MethodMismatch(self));
        }
        match serde_json::from_value(self.params) {
            Ok(params) => Ok((self.id, params)),
            Err(error) => Err(ExtractError::JsonError { method: self.method, error }),
        }
    }
    fn is_shutdown(&self) -> bool {
        self.method == "shutdown"
    }
    fn is_initialize(&self) -> bool {
        self.method == "initialize"
    }
}

impl Notification {
    pub fn new(method: String, params: impl Serialize) -> Notification {
        Notification { method, params: serde_json::to_value(params).unwrap() }
    }
    pub fn extract<P: DeserializeOwned>(self, method: &str) -> Result<P, ExtractError<Notification>> {
        if self.method != method {
            return Err(ExtractError::MethodMismatch(self));
        }
        match serde_json::from_value(self.params) {
            Ok(params) => Ok(params),
            Err(error) => Err(ExtractError::JsonError { method: self.method, error }),
        }
    }
    fn is_exit(&self) -> bool {
        self.method == "exit"
    }
    fn is_initialized(&self) -> bool {
        self.method == "initialized"
    }
}

impl Message {
    pub fn read(r: &mut impl BufRead) -> io::Result<Option<Message>> {
        let mut size = None;
        let mut buf = String::new();
        loop {
            buf.clear();
            if r.read_line(&mut buf)? == 0 {
                return Ok(None);
            }
            if !buf.ends_with("\r\n") {
                return Err(invalid(format!("malformed header: {buf:?}")));
            }
            let line = &buf[..buf.len() - 2];
            if line.is_empty() {
                break;
            }
            let mut parts = line.splitn(2, ": ");
            let name = parts.next().unwrap();
            let value = parts.next().ok_or_else(|| invalid(format!("malformed header: {line:?}")))?;
            if name.eq_ignore_ascii_case("Content-Length") {
                size = Some(value.parse::<usize>().map_err(|e| invalid(e.to_string()))?);
            }
        }
        let size = size.ok_or_else(|| invalid("no Content-Length".to_string()))?;
        let mut buf = vec![0u8; size];
        r.read_exact(&mut buf)?;
        let text = String::from_utf8(buf).map_err(|e| invalid(e.to_string()))?;
        serde_json::from_str(&text).map(Some).map_err(|e| invalid(e.to_string()))
    }
    pub fn write(&self, w: &mut impl Write) -> io::Result<()> {
        #[derive(Serialize)]
        struct JsonRpc<'a> {
            jsonrpc: &'static str,
            #[serde(flatten)]
            msg: &'a Message,
        }
        let text = serde_json::to_string(&JsonRpc { jsonrpc: "2.0", msg: self })?;
        write!(w, "Content-Length: {}\r\n\r\n", text.len())?;
        w.write_all(text.as_bytes())?;
        w.flush()
    }
}

fn invalid(s: String) -> io::Error {
    io::Error::new(io::ErrorKind::InvalidData, s)
}

#[derive(Debug)]
pub enum ExtractError<T> {
    MethodMismatch(T),
    JsonError { method: String, error: serde_json::Error },
}
impl<T: fmt::Debug> fmt::Display for ExtractError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            ExtractError::MethodMismatch(req) => write!(f, "Method mismatch for request '{req:?}'"),
            ExtractError::JsonError { method, error } => {
                write!(f, "Invalid request\nMethod: {method}\n error: {error}")
            }
        }
    }
}
impl<T: fmt::Debug> std::error::Error for ExtractError<T> {}

#[derive(Debug, Clone, PartialEq)]
pub struct ProtocolError(String, bool);
impl ProtocolError {
    pub(crate) fn new(msg: impl Into<String>) -> Self {
        ProtocolError(msg.into(), false)
    }
    pub(crate) fn disconnected() -> Self {
        ProtocolError("disconnected channel".into(), true)
    }
    pub fn channel_is_disconnected(&self) -> bool {
        self.1
    }
}
impl fmt::Display for ProtocolError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl std::error::Error for ProtocolError {}

/// Manages the set of pending requests, both incoming and outgoing.
#[derive(Debug)]
pub struct ReqQueue<I, O> {
    pub incoming: Incoming<I>,
    pub outgoing: Outgoing<O>,
}
impl<I, O> Default for ReqQueue<I, O> {
    fn default() -> Self {
        ReqQueue {
            incoming: Incoming { pending: HashMap::default() },
            outgoing: Outgoing { next_id: 0, pending: HashMap::default() },
        }
    }
}

#[derive(Debug)]
pub struct Incoming<I> {
    pending: HashMap<RequestId, I>,
}
impl<I> Incoming<I> {
    pub fn register(&mut self, id: RequestId, data: I) {
        self.pending.insert(id, data);
    }
    pub fn cancel(&mut self, id: RequestId) -> Option<Response> {
        let _data = self.complete(&id)?;
        let error = ResponseError {
            code: ErrorCode::RequestCanceled as i32,
            message: "canceled by client".to_owned(),
            data: None,
        };
        Some(Response { id, result: None, error: Some(error) })
    }
    pub fn complete(&mut self, id: &RequestId) -> Option<I> {
        self.pending.remove(id)
    }
    pub fn is_completed(&self, id: &RequestId) -> bool {
        !self.pending.contains_key(id)
    }
}

#[derive(Debug)]
pub struct Outgoing<O> {
    next_id: i32,
    pending: HashMap<RequestId, O>,
}
impl<O> Outgoing<O> {
    pub fn register<P: Serialize>(&mut self, method: String, params: P, data: O) -> Request {
        let id = RequestId::from(self.next_id);
        self.pending.insert(id.clone(), data);
        self.next_id += 1;
        Request::new(id, method, params)
    }
    pub fn complete(&mut self, id: RequestId) -> Option<O> {
        self.pending.remove(&id)
    }
}

/// Connection is just a pair of channels of LSP messages.
pub struct Connection {
    pub sender: Sender<Message>,
    pub receiver: Receiver<Message>,
}

pub struct IoThreads(());
impl IoThreads {
    pub fn join(self) -> io::Result<()> {
        Ok(())
    }
}

pub mod sim {
    use super::*;
    use std::sync::Mutex;
    static STDIO: Mutex<Option<Connection>> = Mutex::new(None);
    /// Installs the server end that the next `Connection::stdio()` hands out; returns the client end.
    /// `cap` bounds each direction like the real crate's zero-capacity stdio channels.
    pub fn install_stdio(cap: Option<usize>) -> Connection {
        let (s, c) = Connection::pair(cap);
        *STDIO.lock().unwrap() = Some(s);
        c
    }
    pub(super) fn take_stdio() -> Option<Connection> {
        STDIO.lock().unwrap().take()
    }
}

impl Connection {
    pub fn pair(cap: Option<usize>) -> (Connection, Connection) {
        let mk = || match cap {
            Some(n) => bounded(n),
            None => unbounded(),
        };
        let (s1, r1) = mk();
        let (s2, r2) = mk();
        (Connection { sender: s1, receiver: r2 }, Connection { sender: s2, receiver: r1 })
    }
    pub fn stdio() -> (Connection, IoThreads) {
        let conn = sim::take_stdio().expect("Connection::stdio outside the simulation");
        (conn, IoThreads(()))
    }
    pub fn memory() -> (Connection, Connection) {
        Self::pair(None)
    }
    pub fn initialize_start(&self) -> Result<(RequestId, serde_json::Value), ProtocolError> {
        self.initialize_start_while(|| true)
    }
    pub fn initialize_start_while<C: Fn() -> bool>(
        &self,
        running: C,
    ) -> Result<(RequestId, serde_json::Value), ProtocolError> {
        while running() {
            let msg = match self.receiver.recv_timeout(Duration::from_secs(1)) {
                Ok(msg) => msg,
                Err(RecvTimeoutError::Timeout) => continue,
                Err(RecvTimeoutError::Disconnected) => return Err(ProtocolError::disconnected()),
            };
            match msg {
                Message::Request(req) if req.is_initialize() => return Ok((req.id, req.params)),
                Message::Request(req) => {
                    let resp = Response::new_err(
                        req.id.clone(),
                        ErrorCode::ServerNotInitialized as i32,
                        format!("expected initialize request, got {req:?}"),
                    );
                    let _ = self.sender.send(resp.into());
                    continue;
                }
                Message::Notification(n) if !n.is_exit() => continue,
                msg => return Err(ProtocolError::new(format!("expected initialize request, got {msg:?}"))),
            };
        }
        Err(ProtocolError::new("Initialization has been aborted during initialization"))
    }
    pub fn initialize_finish(
        &self,
        initialize_id: RequestId,
        initialize_result: serde_json::Value,
    ) -> Result<(), ProtocolError> {
        let resp = Response::new_ok(initialize_id, initialize_result);
        let _ = self.sender.send(resp.into());
        match &self.receiver.recv() {
            Ok(Message::Notification(n)) if n.is_initialized() => Ok(()),
            Ok(msg) => Err(ProtocolError::new(format!(r#"expected initialized notification, got: {msg:?}"#))),
            Err(RecvError) => Err(ProtocolError::disconnected()),
        }
    }
    pub fn initialize(&self, server_capabilities: serde_json::Value) -> Result<serde_json::Value, ProtocolError> {
        let (id, params) = self.initialize_start()?;
        self.initialize_finish(id, serde_json::json!({ "capabilities": server_capabilities }))?;
        Ok(params)
    }
    pub fn handle_shutdown(&self, req: &Request) -> Result<bool, ProtocolError> {
        if !req.is_shutdown() {
            return Ok(false);
        }
        let resp = Response::new_ok(req.id.clone(), ());
        let _ = self.sender.send(resp.into());
        match &self.receiver.recv_timeout(Duration::from_secs(30)) {
            Ok(Message::Notification(n)) if n.is_exit() => (),
            Ok(msg) => return Err(ProtocolError::new(format!("unexpected message during shutdown: {msg:?}"))),
            Err(RecvTimeoutError::Timeout) => {
                return Err(ProtocolError::new("timed out waiting for exit notification"));
            }
            Err(RecvTimeoutError::Disconnected) => {
                return Err(ProtocolError::new("channel disconnected waiting for exit notification"));
            }
        }
        Ok(true)
    }
}
