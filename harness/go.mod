module verifharness

go 1.25

require (
	github.com/zyxar/socketio v0.0.0
	github.com/gorilla/websocket v1.4.2
	github.com/tinylib/msgp v1.1.1
	github.com/philhofer/fwd v1.0.0 // indirect
)

replace github.com/zyxar/socketio => /repo
