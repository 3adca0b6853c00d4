module svbverif

go 1.23

require github.com/theMPatel/streamvbyte-simdgo v0.0.0

require golang.org/x/sys v0.0.0-20210510120138-977fb7262007

replace github.com/theMPatel/streamvbyte-simdgo => /repo
