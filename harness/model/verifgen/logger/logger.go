package logger

import (
	"sync"

	"go.uber.org/zap"
)

var Logger *zap.Logger
var once sync.Once

// Initialize sets the logger up, once, whichever parser is first.
func Initialize() {
	once.Do(func() {
		logger, err := zap.NewDevelopment()
		if err != nil {
			panic(err)
		}

		Logger = logger
	})
}
