NOTE = "Every obligation of the listed contracts is discharged for all inputs and iterations; trusts the generator, the SSA builder, the solvers and the models of bufio, utf8, strings, strconv and fmt (listed in the evidence). "
READY = {
 "C01": dict(note=NOTE),
 "C02": dict(note=NOTE),
 "C03": dict(note=NOTE),
 "C04": dict(note=NOTE),
 "C05": dict(note=NOTE),
 "C06": dict(note=NOTE),
 "C07": dict(note=NOTE),
 "C08": dict(note=NOTE),
 "C09": dict(note=NOTE),
 "C11": dict(note=NOTE),
 "C12": dict(note=NOTE),
 "C14": dict(note=NOTE),
 "C15": dict(note=NOTE),
 "C16": dict(note=NOTE),
 "C19": dict(note=NOTE),
 "C10": dict(note=NOTE),
 "C13": dict(note=NOTE),
 "C17": dict(note=NOTE),
 "C18": dict(note=NOTE),
 "C20": dict(note=NOTE),
 "C21": dict(note=NOTE),
}
