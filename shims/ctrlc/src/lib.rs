//! Stand-in (unused).
