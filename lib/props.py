"""All checks by property."""
import p_doc
import p_inline
import p_misc
import p_tools

CHECKS = {}
for m in (p_inline, p_doc, p_misc, p_tools):
    CHECKS.update(m.CHECKS)
TECHNIQUE = {}
NOTES = {}
NOT_APPLICABLE = {}
