"""property id -> (module, function)"""
CHECKS = {
    "R04": ("enginea.r04", "check"),
    "R05": ("enginea.r05", "check"),
    "R01": ("enginea.r01", "check"),
    "R02": ("enginea.r02", "check"),
    "R03": ("enginea.r03", "check"),
    "R06": ("enginea.r06", "check"),
    "R07": ("enginea.r07", "check"),
    "R09": ("enginea.r09", "check"),
    "R10": ("enginea.r10", "check"),
    "R11": ("enginea.r11", "check"),
    "R12": ("enginea.r12", "check"),
    "R08": ("engineb.r08", "check"),
}
