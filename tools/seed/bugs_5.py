from bugs_1 import H
BUGS = []
def bug(id, prop, needs, breaks, edits, test, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, test=(kw.pop('header', H) + test), **kw))

bug('debugger-server-keeps-fields', 'D01',
 'Two requests to run a contract reach the same debug server; the second one leaves out a field that the first one had.',
 'The server reads each request over the previous one of its kind, so what the second request leaves out is taken from the first: its arguments, value, or world.',
 [('arwendebug/server.go', '''	request := RunRequest{}

	err := ginContext.ShouldBindJSON(&request)
	if err != nil {
		returnBadRequest(ginContext, "handleRun.ShouldBindJSON", err)
		return
	}

	response, err := server.facade.RunSmartContract(request)''', '''	server.runMutex.Lock()
	err := ginContext.ShouldBindJSON(&server.runRequest)
	request := server.runRequest
	server.runMutex.Unlock()
	if err != nil {
		returnBadRequest(ginContext, "handleRun.ShouldBindJSON", err)
		return
	}

	response, err := server.facade.RunSmartContract(request)'''),
  ('arwendebug/server.go', '''	address string
}''', '''	address string

	runMutex   sync.Mutex
	runRequest RunRequest
}'''),
  ('arwendebug/server.go', '''	"net/http"
''', '''	"net/http"
	"sync"
''')], '''package arwendebug

import (
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
	"github.com/stretchr/testify/require"
)

func TestVerifDemo(t *testing.T) {
	folder, err := ioutil.TempDir("", "demo")
	require.Nil(t, err)
	defer func() { _ = os.RemoveAll(folder) }()
	work, err := os.Getwd()
	require.Nil(t, err)
	require.Nil(t, os.Chdir(folder))
	defer func() { _ = os.Chdir(work) }()

	gin.SetMode(gin.TestMode)
	server := NewDebugServer(NewDebugFacade(), "")
	router := gin.New()
	router.POST("/run", server.handleRun)
	post := func(body string) {
		answer := httptest.NewRecorder()
		request, err := http.NewRequest("POST", "/run", strings.NewReader(body))
		require.Nil(t, err)
		router.ServeHTTP(answer, request)
		require.Equal(t, 200, answer.Code, answer.Body.String())
	}
	request := `"DatabasePath": "` + folder + `/db", "ImpersonatedHex": "` + strings.Repeat("61", 32) +
		`", "ContractAddressHex": "` + strings.Repeat("62", 32) + `", "Function": "f", "GasLimit": 100000`
	post(`{` + request + `, "World": "first"}`)
	post(`{` + request + `}`)
	found, err := filepath.Glob(filepath.Join(folder, "db", "*", "default.json"))
	require.Nil(t, err)
	more, err := filepath.Glob(filepath.Join(folder, "db", "default.json"))
	require.Nil(t, err)
	require.Len(t, append(found, more...), 1)
}
''', header='', pkg='arwendebug')

bug('schedule-with-new-opcode-costs-only', 'C11',
 'The new gas schedule differs from the previous one in the costs of wasm opcodes only.',
 'The change is taken for no change, and executions go on being charged by the previous opcode costs.',
 [('arwen/host/arwen.go', '''	host.gasSchedule = newGasSchedule

	opcodeCosts''', '''	changed := false
	for section, costs := range newGasSchedule {
		for name, cost := range costs {
			if previous, ok := host.gasSchedule[section][name]; ok && section != "WASMOpcodeCost" && previous != cost {
				changed = true
			}
		}
	}
	if !changed && host.gasSchedule != nil {
		return
	}

	host.gasSchedule = newGasSchedule

	opcodeCosts''')], '''
func TestVerifDemo(t *testing.T) {
	host, _ := demoHost(t, demoSC{addr: test.ParentAddress, methods: demoMethods{"f": func(host arwen.VMHost) {}}})
	first := config.MakeGasMap(3, 1)
	second := config.MakeGasMap(3, 1)
	second["WASMOpcodeCost"]["I32Add"] = 77
	host.GasScheduleChange(first)
	require.Equal(t, uint64(3), host.Metering().GasSchedule().BaseOperationCost.StorePerByte)
	host.GasScheduleChange(second)
	require.Equal(t, uint32(77), host.Metering().GasSchedule().WASMOpcodeCost.I32Add)
}
''', header=H.replace('arwen/elrondapi"\n', 'arwen/elrondapi"\n\t"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"\n'))
