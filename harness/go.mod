module vmon

go 1.23

require github.com/nginxinc/nginx-go-crossplane v0.0.0

replace github.com/nginxinc/nginx-go-crossplane => /repo
