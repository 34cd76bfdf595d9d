module uipcheck

go 1.23

require github.com/qiniu/uip v0.0.0

replace github.com/qiniu/uip => /repo
