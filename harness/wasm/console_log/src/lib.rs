//! Stands in for console_log: there is no console.
pub fn init_with_level(_level: log::Level) -> Result<(), log::SetLoggerError> {
    Ok(())
}
