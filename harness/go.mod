module amtverif

go 1.23

require github.com/wdamron/amt v0.0.0

replace github.com/wdamron/amt => /repo
