"""imports every rule module, so that core.RULES is complete"""
import rules.rips
import rules.fields_
import rules.columns
import rules.matrices
import rules.cache
import rules.basis
import rules.reduction
import rules.grpph
import rules.pyfns
import rules.cli
import rules.cast
import rules.unsafe_
import rules.types_
import rules.order_
import rules.values
import rules.keys
