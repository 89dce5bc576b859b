module icsverif

go 1.23

require vimagination.zapto.org/ics v0.0.0

require vimagination.zapto.org/parser v1.0.3 // indirect

replace vimagination.zapto.org/ics => /repo

replace vimagination.zapto.org/parser v1.0.3 => github.com/MJKWoolnough/parser v1.0.3
