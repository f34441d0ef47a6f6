//! The parts of `reqwest` that the package registry uses, answered by the
//! harness.

use std::fmt;
use std::io::Read;

/// What the server answers.
#[derive(Clone, Debug)]
pub enum Answer {
    /// No connection.
    Unreachable,
    /// A status, with what the body holds and whether it breaks off there.
    Body(u16, Vec<u8>, bool),
}

thread_local! {
    #[allow(clippy::type_complexity)]
    static SERVER: std::cell::RefCell<Option<Box<dyn FnMut(&str) -> Answer>>> = const { std::cell::RefCell::new(None) };
}

/// Sets the server of this worker.
pub fn serve(f: impl FnMut(&str) -> Answer + 'static) {
    SERVER.with(|s| *s.borrow_mut() = Some(Box::new(f)));
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const OK: StatusCode = StatusCode(200);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        (500..600).contains(&self.0)
    }
}
impl PartialEq<u16> for StatusCode {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

#[derive(Debug)]
pub struct Error(Option<StatusCode>);
impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        self.0
    }
    pub fn is_status(&self) -> bool {
        self.0.is_some()
    }
    pub fn is_connect(&self) -> bool {
        self.0.is_none()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            Some(s) => write!(f, "status {s}"),
            None => f.write_str("unreachable"),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug)]
pub struct Certificate;
impl Certificate {
    pub fn from_pem(_: &[u8]) -> Result<Certificate> {
        Ok(Certificate)
    }
}

pub mod blocking {
    use super::*;

    #[derive(Clone, Debug, Default)]
    pub struct Client;
    #[derive(Debug, Default)]
    pub struct ClientBuilder;
    impl Client {
        pub fn new() -> Client {
            Client
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder
        }
        pub fn get(&self, url: impl AsRef<str>) -> RequestBuilder {
            RequestBuilder(url.as_ref().into())
        }
    }
    impl ClientBuilder {
        pub fn add_root_certificate(self, _: Certificate) -> Self {
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client)
        }
    }
    pub struct RequestBuilder(String);
    impl RequestBuilder {
        pub fn send(self) -> Result<Response> {
            let a = SERVER.with(|s| match &mut *s.borrow_mut() {
                Some(f) => f(&self.0),
                None => Answer::Unreachable,
            });
            match a {
                Answer::Unreachable => Err(Error(None)),
                Answer::Body(status, body, breaks) => Ok(Response { status: StatusCode(status), body, at: 0, breaks }),
            }
        }
    }
    #[derive(Debug)]
    pub struct Response {
        status: StatusCode,
        body: Vec<u8>,
        at: usize,
        breaks: bool,
    }
    impl Response {
        pub fn status(&self) -> StatusCode {
            self.status
        }
        pub fn error_for_status(self) -> Result<Response> {
            if self.status.as_u16() >= 400 {
                Err(Error(Some(self.status)))
            } else {
                Ok(self)
            }
        }
    }
    impl Read for Response {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            let n = (&self.body[self.at..]).read(buf)?;
            self.at += n;
            if n == 0 && !buf.is_empty() && self.breaks {
                return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "the connection broke"));
            }
            Ok(n)
        }
    }
}
