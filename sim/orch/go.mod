module verif/orch

go 1.26
