module verif/harness

go 1.26.0
