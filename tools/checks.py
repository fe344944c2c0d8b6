MODEL="property-based testing: generated devices and rule files, patch engine vs. an independent reference model (differential), shrinking"
PT="generated-input search, nothing is proved beyond the cases run; cases the model leaves unspecified are skipped and counted in the evidence"
CHECKS={i:(MODEL,PT) for i in "C01 C02 C03 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C29 C30 C31".split()}
CHECKS["C01"]=("property-based testing: empty-patch identity, repeatability, and differential against a reference model over generated devices and rule files, shrinking",PT)
CHECKS["C02"]=("property-based testing: generated names and patterns at every level against an independent pattern matcher inside the reference model, shrinking",PT)
CHECKS["C08"]=("property-based testing: metamorphic relation (shuffled directive keys give the same result) plus differential against the reference model, shrinking",PT)
CLI="property-based testing: generated devices run through the svdtools binary, output parsed and compared with an independent "
CHECKS["C04"]=("property-based testing with fault injection: generated inputs, one injected failure cause each, exit status and output file against the expected outcome, shrinking",PT)
CHECKS["C05"]=("property-based testing: generated trees of rule files against an independent reference merge (differential), shrinking",PT)
CHECKS["C06"]=("property-based testing: metamorphic relation (patching with the expanded file equals patching with the original; expansion is idempotent) over generated trees of rule files, shrinking",PT)
CHECKS["C07"]=("property-based testing: generated trees of rule files, dependency list against an independent include walk, shrinking",PT)
CHECKS["C23"]=("property-based testing: round-trip between formats over generated devices plus differential against a reference for the options, shrinking",PT)
CHECKS["C24"]=(CLI+"flattening of the same device (differential), shrinking",PT)
CHECKS["C25"]=(CLI+"listing of the same device (differential), shrinking",PT)
CHECKS["C26"]=(CLI+"interrupt list and gap computation (differential), shrinking",PT)
CHECKS["C27"]=(CLI+"computation of rows and coverage (differential), shrinking",PT)
CHECKS["C28"]=(CLI+"presence table of the same devices (differential), shrinking",PT)
CHECKS["C32"]=("property-based testing: generated devices, rule files and option combinations; metamorphic (formats never change the device, validation never changes accepted output) plus output placement oracle, shrinking",PT)
CHECKS["C34"]=("property-based testing: one failing rule planted in a generated patch that works (metamorphic pair, decided by the reference model), error message against the names on its path, shrinking",PT)
CHECKS["C35"]=("property-based testing: generated devices in every input format, printed name against the generated one, shrinking",PT)
CHECKS["C33"]=("property-based testing: differential of the Python and the Rust version over generated devices, rule files and include trees, shrinking",PT)
