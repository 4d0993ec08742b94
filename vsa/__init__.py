"""Static analyses for zope.security (see ../DESIGN.md)."""
