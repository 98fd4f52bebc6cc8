//! Classification of the library's errors into kinds comparable with the model.
use tedium::parse::error::{ExternalError, InternalError, ParseError, TokenError, WindowError};

/// coarse class: same across parser implementations
pub fn class(e: &ParseError) -> String {
    match e {
        ParseError::Window(w) => match w {
            WindowError::ConsumeWouldExceedLimit { .. } => "window/consume".into(),
            WindowError::OpenWouldExceedBuffer { .. } | WindowError::OpenWouldExceedWindow { .. } => "window/open".into(),
            WindowError::CloseWithResidue { residual } => format!("window/residue:{residual}"),
            WindowError::CloseWithoutWindow => "window/none".into(),
            WindowError::OffsetOverflow { .. } => "window/overflow".into(),
        },
        ParseError::Internal(i) => match i {
            InternalError::SliceCoerceFailure(_) => "internal/coerce".into(),
            InternalError::NoValidTags => "internal/notags".into(),
        },
        ParseError::External(x) => match x {
            ExternalError::UncoercableString(_) => "external/string".into(),
            ExternalError::IntRangeViolation(b) => format!("external/int:{b:?}"),
            ExternalError::FloatRangeViolation(b) => format!("external/float:{b:?}"),
            ExternalError::WidthViolation(w) => format!("external/width:{w:?}"),
            ExternalError::LengthViolation(l) => format!("external/length:{l:?}"),
            ExternalError::GenericError(_) => "external/generic".into(),
        },
        ParseError::Token(t) => match t {
            TokenError::InvalidBoolean(b) => format!("token/bool:{b:02x}"),
            TokenError::InvalidTagU8(_) => "token/tag8".into(),
            TokenError::InvalidTagU16(_) => "token/tag16".into(),
            TokenError::InvalidTagU30(_) => "token/tag32".into(),
            TokenError::NonTerminating(b) => format!("token/unterminated:{}", crate::rep::hex(b)),
            TokenError::NonNullPaddingByte { padding } => format!("token/padding:{}", crate::rep::hex(padding)),
        },
    }
}

/// top-level part of a class, for signatures
pub fn head(c: &str) -> &str {
    c.split(':').next().unwrap()
}
