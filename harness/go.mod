module verif/harness

go 1.26.0

require github.com/timtadh/data-structures v0.0.0

replace github.com/timtadh/data-structures => /repo
