module socketioverif

go 1.26.0

require (
	github.com/gorilla/websocket v1.4.2
	github.com/philhofer/fwd v1.0.0 // indirect
	github.com/tinylib/msgp v1.1.1
	github.com/zyxar/socketio v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/zyxar/socketio => /repo
