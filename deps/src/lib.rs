//! Only there so that cargo compiles the two libraries /repo depends on.
