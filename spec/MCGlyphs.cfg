SPECIFICATION Spec
INVARIANT GlyphsOk
CHECK_DEADLOCK FALSE
