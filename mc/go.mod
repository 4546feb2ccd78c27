module vmc

go 1.22

require github.com/grepsuzette/joeson v0.0.0

require golang.org/x/exp v0.0.0-20221114191408-850992195362 // indirect

replace github.com/grepsuzette/joeson => /repo
