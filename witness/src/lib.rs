//! Only here so that cargo builds what the witnesses link against.
