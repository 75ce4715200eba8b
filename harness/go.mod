module vharness

go 1.23

require (
	fast-ksw v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	golang.org/x/crypto v0.0.0-20220331220935-ae2d96664a29 // indirect
	golang.org/x/sys v0.0.0-20210615035016-665e8c7367d1 // indirect
)

replace fast-ksw => /repo
