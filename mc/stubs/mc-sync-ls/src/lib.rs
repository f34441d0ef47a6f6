//! The client of the language server: it records what it is told, and queues
//! the server's own events.
use std::any::Any;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use lsp_types::notification::Notification;
use tokio::sync::mpsc;

type Event = Box<dyn Any + Send>;
type Told = Arc<Mutex<Vec<(&'static str, serde_json::Value)>>>;

#[derive(Clone)]
pub struct LspClient {
    pub handle: tokio::runtime::Handle,
    events: mpsc::UnboundedSender<Event>,
    pub told: Told,
}
impl LspClient {
    pub fn recording() -> (Self, mpsc::UnboundedReceiver<Event>) {
        let (tx, rx) = mpsc::unbounded_channel();
        (Self { handle: tokio::runtime::Handle::mc(), events: tx, told: Told::default() }, rx)
    }
    pub fn untyped(&self) -> &Self {
        self
    }
    pub fn to_typed<S: Any>(&self) -> TypedLspClient<S> {
        TypedLspClient { client: self.clone(), marker: PhantomData }
    }
    pub fn send_event<T: Any + Send + 'static>(&self, event: T) {
        if self.events.send(Box::new(event)).is_err() {
            log::warn!("failed to send event");
        }
    }
    pub fn send_notification<N: Notification>(&self, params: &N::Params) {
        self.told.lock().unwrap().push((N::METHOD, serde_json::to_value(params).unwrap()));
    }
}
pub struct TypedLspClient<S> {
    client: LspClient,
    marker: PhantomData<fn(S)>,
}
impl<S> TypedLspClient<S> {
    pub fn to_untyped(self) -> LspClient {
        self.client
    }
}
impl<S> Clone for TypedLspClient<S> {
    fn clone(&self) -> Self {
        Self { client: self.client.clone(), marker: PhantomData }
    }
}
impl<S> std::ops::Deref for TypedLspClient<S> {
    type Target = LspClient;
    fn deref(&self) -> &LspClient {
        &self.client
    }
}
