use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrorKind {
    Encryption,
    ExceededBuffer,
    Invalid,
    InvalidKeyData,
    InvalidNonce,
    MissingSecretKey,
    Unexpected,
    Usage,
    Unsupported,
}
impl ErrorKind {
    pub fn as_str(&self) -> &'static str {
        match self {
            Self::Encryption => "Encryption error",
            Self::ExceededBuffer => "Exceeded allocated buffer",
            Self::Invalid => "Invalid input",
            Self::InvalidNonce => "Invalid encryption nonce",
            Self::InvalidKeyData => "Invalid key data",
            Self::MissingSecretKey => "Missing secret key",
            Self::Unexpected => "Unexpected error",
            Self::Usage => "Incorrect usage",
            Self::Unsupported => "Unsupported",
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    pub(crate) kind: ErrorKind,
    pub(crate) message: Option<&'static str>,
}
impl Error {
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
}
pub(crate) fn err<T>(kind: ErrorKind) -> Result<T, Error> {
    Err(Error { kind, message: None })
}
pub(crate) fn errm<T>(kind: ErrorKind, m: &'static str) -> Result<T, Error> {
    Err(Error { kind, message: Some(m) })
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.message.unwrap_or(self.kind.as_str()))
    }
}
impl std::error::Error for Error {}
