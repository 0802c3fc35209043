// Structures of the Debug Adapter Protocol 1.65: members and names on the wire.
#ifdef P_STRUCT
P_STRUCT(AttachResponse)
P_END

P_STRUCT(AttachRequest)
  P_FIELD(restart, "__restart")
P_END

P_STRUCT(Checksum)
  P_FIELD(algorithm, "algorithm")
  P_FIELD(checksum, "checksum")
P_END

P_STRUCT(Source)
  P_FIELD(adapterData, "adapterData")
  P_FIELD(checksums, "checksums")
  P_FIELD(name, "name")
  P_FIELD(origin, "origin")
  P_FIELD(path, "path")
  P_FIELD(presentationHint, "presentationHint")
  P_FIELD(sourceReference, "sourceReference")
  P_FIELD(sources, "sources")
P_END

P_STRUCT(Breakpoint)
  P_FIELD(column, "column")
  P_FIELD(endColumn, "endColumn")
  P_FIELD(endLine, "endLine")
  P_FIELD(id, "id")
  P_FIELD(instructionReference, "instructionReference")
  P_FIELD(line, "line")
  P_FIELD(message, "message")
  P_FIELD(offset, "offset")
  P_FIELD(reason, "reason")
  P_FIELD(source, "source")
  P_FIELD(verified, "verified")
P_END

P_STRUCT(BreakpointEvent)
  P_FIELD(breakpoint, "breakpoint")
  P_FIELD(reason, "reason")
P_END

P_STRUCT(BreakpointLocation)
  P_FIELD(column, "column")
  P_FIELD(endColumn, "endColumn")
  P_FIELD(endLine, "endLine")
  P_FIELD(line, "line")
P_END

P_STRUCT(BreakpointLocationsResponse)
  P_FIELD(breakpoints, "breakpoints")
P_END

P_STRUCT(BreakpointLocationsRequest)
  P_FIELD(column, "column")
  P_FIELD(endColumn, "endColumn")
  P_FIELD(endLine, "endLine")
  P_FIELD(line, "line")
  P_FIELD(source, "source")
P_END

P_STRUCT(CancelResponse)
P_END

P_STRUCT(CancelRequest)
  P_FIELD(progressId, "progressId")
  P_FIELD(requestId, "requestId")
P_END

P_STRUCT(ColumnDescriptor)
  P_FIELD(attributeName, "attributeName")
  P_FIELD(format, "format")
  P_FIELD(label, "label")
  P_FIELD(type, "type")
  P_FIELD(width, "width")
P_END

P_STRUCT(BreakpointMode)
  P_FIELD(appliesTo, "appliesTo")
  P_FIELD(description, "description")
  P_FIELD(label, "label")
  P_FIELD(mode, "mode")
P_END

P_STRUCT(ExceptionBreakpointsFilter)
  P_FIELD(conditionDescription, "conditionDescription")
  P_FIELD(def, "default")
  P_FIELD(description, "description")
  P_FIELD(filter, "filter")
  P_FIELD(label, "label")
  P_FIELD(supportsCondition, "supportsCondition")
P_END

P_STRUCT(Capabilities)
  P_FIELD(additionalModuleColumns, "additionalModuleColumns")
  P_FIELD(breakpointModes, "breakpointModes")
  P_FIELD(completionTriggerCharacters, "completionTriggerCharacters")
  P_FIELD(exceptionBreakpointFilters, "exceptionBreakpointFilters")
  P_FIELD(supportSuspendDebuggee, "supportSuspendDebuggee")
  P_FIELD(supportTerminateDebuggee, "supportTerminateDebuggee")
  P_FIELD(supportedChecksumAlgorithms, "supportedChecksumAlgorithms")
  P_FIELD(supportsBreakpointLocationsRequest, "supportsBreakpointLocationsRequest")
  P_FIELD(supportsCancelRequest, "supportsCancelRequest")
  P_FIELD(supportsClipboardContext, "supportsClipboardContext")
  P_FIELD(supportsCompletionsRequest, "supportsCompletionsRequest")
  P_FIELD(supportsConditionalBreakpoints, "supportsConditionalBreakpoints")
  P_FIELD(supportsConfigurationDoneRequest, "supportsConfigurationDoneRequest")
  P_FIELD(supportsDataBreakpoints, "supportsDataBreakpoints")
  P_FIELD(supportsDelayedStackTraceLoading, "supportsDelayedStackTraceLoading")
  P_FIELD(supportsDisassembleRequest, "supportsDisassembleRequest")
  P_FIELD(supportsEvaluateForHovers, "supportsEvaluateForHovers")
  P_FIELD(supportsExceptionFilterOptions, "supportsExceptionFilterOptions")
  P_FIELD(supportsExceptionInfoRequest, "supportsExceptionInfoRequest")
  P_FIELD(supportsExceptionOptions, "supportsExceptionOptions")
  P_FIELD(supportsFunctionBreakpoints, "supportsFunctionBreakpoints")
  P_FIELD(supportsGotoTargetsRequest, "supportsGotoTargetsRequest")
  P_FIELD(supportsHitConditionalBreakpoints, "supportsHitConditionalBreakpoints")
  P_FIELD(supportsInstructionBreakpoints, "supportsInstructionBreakpoints")
  P_FIELD(supportsLoadedSourcesRequest, "supportsLoadedSourcesRequest")
  P_FIELD(supportsLogPoints, "supportsLogPoints")
  P_FIELD(supportsModulesRequest, "supportsModulesRequest")
  P_FIELD(supportsReadMemoryRequest, "supportsReadMemoryRequest")
  P_FIELD(supportsRestartFrame, "supportsRestartFrame")
  P_FIELD(supportsRestartRequest, "supportsRestartRequest")
  P_FIELD(supportsSetExpression, "supportsSetExpression")
  P_FIELD(supportsSetVariable, "supportsSetVariable")
  P_FIELD(supportsSingleThreadExecutionRequests, "supportsSingleThreadExecutionRequests")
  P_FIELD(supportsStepBack, "supportsStepBack")
  P_FIELD(supportsStepInTargetsRequest, "supportsStepInTargetsRequest")
  P_FIELD(supportsSteppingGranularity, "supportsSteppingGranularity")
  P_FIELD(supportsTerminateRequest, "supportsTerminateRequest")
  P_FIELD(supportsTerminateThreadsRequest, "supportsTerminateThreadsRequest")
  P_FIELD(supportsValueFormattingOptions, "supportsValueFormattingOptions")
  P_FIELD(supportsWriteMemoryRequest, "supportsWriteMemoryRequest")
P_END

P_STRUCT(CapabilitiesEvent)
  P_FIELD(capabilities, "capabilities")
P_END

P_STRUCT(CompletionItem)
  P_FIELD(detail, "detail")
  P_FIELD(label, "label")
  P_FIELD(length, "length")
  P_FIELD(selectionLength, "selectionLength")
  P_FIELD(selectionStart, "selectionStart")
  P_FIELD(sortText, "sortText")
  P_FIELD(start, "start")
  P_FIELD(text, "text")
  P_FIELD(type, "type")
P_END

P_STRUCT(CompletionsResponse)
  P_FIELD(targets, "targets")
P_END

P_STRUCT(CompletionsRequest)
  P_FIELD(column, "column")
  P_FIELD(frameId, "frameId")
  P_FIELD(line, "line")
  P_FIELD(text, "text")
P_END

P_STRUCT(ConfigurationDoneResponse)
P_END

P_STRUCT(ConfigurationDoneRequest)
P_END

P_STRUCT(ContinueResponse)
  P_FIELD(allThreadsContinued, "allThreadsContinued")
P_END

P_STRUCT(ContinueRequest)
  P_FIELD(singleThread, "singleThread")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(ContinuedEvent)
  P_FIELD(allThreadsContinued, "allThreadsContinued")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(DataBreakpointInfoResponse)
  P_FIELD(accessTypes, "accessTypes")
  P_FIELD(canPersist, "canPersist")
  P_FIELD(dataId, "dataId")
  P_FIELD(description, "description")
P_END

P_STRUCT(DataBreakpointInfoRequest)
  P_FIELD(frameId, "frameId")
  P_FIELD(mode, "mode")
  P_FIELD(name, "name")
  P_FIELD(variablesReference, "variablesReference")
P_END

P_STRUCT(DisassembledInstruction)
  P_FIELD(address, "address")
  P_FIELD(column, "column")
  P_FIELD(endColumn, "endColumn")
  P_FIELD(endLine, "endLine")
  P_FIELD(instruction, "instruction")
  P_FIELD(instructionBytes, "instructionBytes")
  P_FIELD(line, "line")
  P_FIELD(location, "location")
  P_FIELD(presentationHint, "presentationHint")
  P_FIELD(symbol, "symbol")
P_END

P_STRUCT(DisassembleResponse)
  P_FIELD(instructions, "instructions")
P_END

P_STRUCT(DisassembleRequest)
  P_FIELD(instructionCount, "instructionCount")
  P_FIELD(instructionOffset, "instructionOffset")
  P_FIELD(memoryReference, "memoryReference")
  P_FIELD(offset, "offset")
  P_FIELD(resolveSymbols, "resolveSymbols")
P_END

P_STRUCT(DisconnectResponse)
P_END

P_STRUCT(DisconnectRequest)
  P_FIELD(restart, "restart")
  P_FIELD(suspendDebuggee, "suspendDebuggee")
  P_FIELD(terminateDebuggee, "terminateDebuggee")
P_END

P_STRUCT(Message)
  P_FIELD(format, "format")
  P_FIELD(id, "id")
  P_FIELD(sendTelemetry, "sendTelemetry")
  P_FIELD(showUser, "showUser")
  P_FIELD(url, "url")
  P_FIELD(urlLabel, "urlLabel")
  P_FIELD(variables, "variables")
P_END

P_STRUCT(ErrorResponse)
  P_FIELD(error, "error")
P_END

P_STRUCT(VariablePresentationHint)
  P_FIELD(attributes, "attributes")
  P_FIELD(kind, "kind")
  P_FIELD(lazy, "lazy")
  P_FIELD(visibility, "visibility")
P_END

P_STRUCT(EvaluateResponse)
  P_FIELD(indexedVariables, "indexedVariables")
  P_FIELD(memoryReference, "memoryReference")
  P_FIELD(namedVariables, "namedVariables")
  P_FIELD(presentationHint, "presentationHint")
  P_FIELD(result, "result")
  P_FIELD(type, "type")
  P_FIELD(variablesReference, "variablesReference")
P_END

P_STRUCT(ValueFormat)
  P_FIELD(hex, "hex")
P_END

P_STRUCT(EvaluateRequest)
  P_FIELD(context, "context")
  P_FIELD(expression, "expression")
  P_FIELD(format, "format")
  P_FIELD(frameId, "frameId")
P_END

P_STRUCT(ExceptionDetails)
  P_FIELD(evaluateName, "evaluateName")
  P_FIELD(fullTypeName, "fullTypeName")
  P_FIELD(innerException, "innerException")
  P_FIELD(message, "message")
  P_FIELD(stackTrace, "stackTrace")
  P_FIELD(typeName, "typeName")
P_END

P_STRUCT(ExceptionInfoResponse)
  P_FIELD(breakMode, "breakMode")
  P_FIELD(description, "description")
  P_FIELD(details, "details")
  P_FIELD(exceptionId, "exceptionId")
P_END

P_STRUCT(ExceptionInfoRequest)
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(ExitedEvent)
  P_FIELD(exitCode, "exitCode")
P_END

P_STRUCT(GotoResponse)
P_END

P_STRUCT(GotoRequest)
  P_FIELD(targetId, "targetId")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(GotoTarget)
  P_FIELD(column, "column")
  P_FIELD(endColumn, "endColumn")
  P_FIELD(endLine, "endLine")
  P_FIELD(id, "id")
  P_FIELD(instructionPointerReference, "instructionPointerReference")
  P_FIELD(label, "label")
  P_FIELD(line, "line")
P_END

P_STRUCT(GotoTargetsResponse)
  P_FIELD(targets, "targets")
P_END

P_STRUCT(GotoTargetsRequest)
  P_FIELD(column, "column")
  P_FIELD(line, "line")
  P_FIELD(source, "source")
P_END

P_STRUCT(InitializeResponse)
  P_FIELD(additionalModuleColumns, "additionalModuleColumns")
  P_FIELD(breakpointModes, "breakpointModes")
  P_FIELD(completionTriggerCharacters, "completionTriggerCharacters")
  P_FIELD(exceptionBreakpointFilters, "exceptionBreakpointFilters")
  P_FIELD(supportSuspendDebuggee, "supportSuspendDebuggee")
  P_FIELD(supportTerminateDebuggee, "supportTerminateDebuggee")
  P_FIELD(supportedChecksumAlgorithms, "supportedChecksumAlgorithms")
  P_FIELD(supportsBreakpointLocationsRequest, "supportsBreakpointLocationsRequest")
  P_FIELD(supportsCancelRequest, "supportsCancelRequest")
  P_FIELD(supportsClipboardContext, "supportsClipboardContext")
  P_FIELD(supportsCompletionsRequest, "supportsCompletionsRequest")
  P_FIELD(supportsConditionalBreakpoints, "supportsConditionalBreakpoints")
  P_FIELD(supportsConfigurationDoneRequest, "supportsConfigurationDoneRequest")
  P_FIELD(supportsDataBreakpoints, "supportsDataBreakpoints")
  P_FIELD(supportsDelayedStackTraceLoading, "supportsDelayedStackTraceLoading")
  P_FIELD(supportsDisassembleRequest, "supportsDisassembleRequest")
  P_FIELD(supportsEvaluateForHovers, "supportsEvaluateForHovers")
  P_FIELD(supportsExceptionFilterOptions, "supportsExceptionFilterOptions")
  P_FIELD(supportsExceptionInfoRequest, "supportsExceptionInfoRequest")
  P_FIELD(supportsExceptionOptions, "supportsExceptionOptions")
  P_FIELD(supportsFunctionBreakpoints, "supportsFunctionBreakpoints")
  P_FIELD(supportsGotoTargetsRequest, "supportsGotoTargetsRequest")
  P_FIELD(supportsHitConditionalBreakpoints, "supportsHitConditionalBreakpoints")
  P_FIELD(supportsInstructionBreakpoints, "supportsInstructionBreakpoints")
  P_FIELD(supportsLoadedSourcesRequest, "supportsLoadedSourcesRequest")
  P_FIELD(supportsLogPoints, "supportsLogPoints")
  P_FIELD(supportsModulesRequest, "supportsModulesRequest")
  P_FIELD(supportsReadMemoryRequest, "supportsReadMemoryRequest")
  P_FIELD(supportsRestartFrame, "supportsRestartFrame")
  P_FIELD(supportsRestartRequest, "supportsRestartRequest")
  P_FIELD(supportsSetExpression, "supportsSetExpression")
  P_FIELD(supportsSetVariable, "supportsSetVariable")
  P_FIELD(supportsSingleThreadExecutionRequests, "supportsSingleThreadExecutionRequests")
  P_FIELD(supportsStepBack, "supportsStepBack")
  P_FIELD(supportsStepInTargetsRequest, "supportsStepInTargetsRequest")
  P_FIELD(supportsSteppingGranularity, "supportsSteppingGranularity")
  P_FIELD(supportsTerminateRequest, "supportsTerminateRequest")
  P_FIELD(supportsTerminateThreadsRequest, "supportsTerminateThreadsRequest")
  P_FIELD(supportsValueFormattingOptions, "supportsValueFormattingOptions")
  P_FIELD(supportsWriteMemoryRequest, "supportsWriteMemoryRequest")
P_END

P_STRUCT(InitializeRequest)
  P_FIELD(adapterID, "adapterID")
  P_FIELD(clientID, "clientID")
  P_FIELD(clientName, "clientName")
  P_FIELD(columnsStartAt1, "columnsStartAt1")
  P_FIELD(linesStartAt1, "linesStartAt1")
  P_FIELD(locale, "locale")
  P_FIELD(pathFormat, "pathFormat")
  P_FIELD(supportsArgsCanBeInterpretedByShell, "supportsArgsCanBeInterpretedByShell")
  P_FIELD(supportsInvalidatedEvent, "supportsInvalidatedEvent")
  P_FIELD(supportsMemoryEvent, "supportsMemoryEvent")
  P_FIELD(supportsMemoryReferences, "supportsMemoryReferences")
  P_FIELD(supportsProgressReporting, "supportsProgressReporting")
  P_FIELD(supportsRunInTerminalRequest, "supportsRunInTerminalRequest")
  P_FIELD(supportsStartDebuggingRequest, "supportsStartDebuggingRequest")
  P_FIELD(supportsVariablePaging, "supportsVariablePaging")
  P_FIELD(supportsVariableType, "supportsVariableType")
P_END

P_STRUCT(InitializedEvent)
P_END

P_STRUCT(InvalidatedEvent)
  P_FIELD(areas, "areas")
  P_FIELD(stackFrameId, "stackFrameId")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(LaunchResponse)
P_END

P_STRUCT(LaunchRequest)
  P_FIELD(restart, "__restart")
  P_FIELD(noDebug, "noDebug")
P_END

P_STRUCT(LoadedSourceEvent)
  P_FIELD(reason, "reason")
  P_FIELD(source, "source")
P_END

P_STRUCT(LoadedSourcesResponse)
  P_FIELD(sources, "sources")
P_END

P_STRUCT(LoadedSourcesRequest)
P_END

P_STRUCT(MemoryEvent)
  P_FIELD(count, "count")
  P_FIELD(memoryReference, "memoryReference")
  P_FIELD(offset, "offset")
P_END

P_STRUCT(Module)
  P_FIELD(addressRange, "addressRange")
  P_FIELD(dateTimeStamp, "dateTimeStamp")
  P_FIELD(id, "id")
  P_FIELD(isOptimized, "isOptimized")
  P_FIELD(isUserCode, "isUserCode")
  P_FIELD(name, "name")
  P_FIELD(path, "path")
  P_FIELD(symbolFilePath, "symbolFilePath")
  P_FIELD(symbolStatus, "symbolStatus")
  P_FIELD(version, "version")
P_END

P_STRUCT(ModuleEvent)
  P_FIELD(module, "module")
  P_FIELD(reason, "reason")
P_END

P_STRUCT(ModulesResponse)
  P_FIELD(modules, "modules")
  P_FIELD(totalModules, "totalModules")
P_END

P_STRUCT(ModulesRequest)
  P_FIELD(moduleCount, "moduleCount")
  P_FIELD(startModule, "startModule")
P_END

P_STRUCT(NextResponse)
P_END

P_STRUCT(NextRequest)
  P_FIELD(granularity, "granularity")
  P_FIELD(singleThread, "singleThread")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(OutputEvent)
  P_FIELD(category, "category")
  P_FIELD(column, "column")
  P_FIELD(data, "data")
  P_FIELD(group, "group")
  P_FIELD(line, "line")
  P_FIELD(output, "output")
  P_FIELD(source, "source")
  P_FIELD(variablesReference, "variablesReference")
P_END

P_STRUCT(PauseResponse)
P_END

P_STRUCT(PauseRequest)
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(ProcessEvent)
  P_FIELD(isLocalProcess, "isLocalProcess")
  P_FIELD(name, "name")
  P_FIELD(pointerSize, "pointerSize")
  P_FIELD(startMethod, "startMethod")
  P_FIELD(systemProcessId, "systemProcessId")
P_END

P_STRUCT(ProgressEndEvent)
  P_FIELD(message, "message")
  P_FIELD(progressId, "progressId")
P_END

P_STRUCT(ProgressStartEvent)
  P_FIELD(cancellable, "cancellable")
  P_FIELD(message, "message")
  P_FIELD(percentage, "percentage")
  P_FIELD(progressId, "progressId")
  P_FIELD(requestId, "requestId")
  P_FIELD(title, "title")
P_END

P_STRUCT(ProgressUpdateEvent)
  P_FIELD(message, "message")
  P_FIELD(percentage, "percentage")
  P_FIELD(progressId, "progressId")
P_END

P_STRUCT(ReadMemoryResponse)
  P_FIELD(address, "address")
  P_FIELD(data, "data")
  P_FIELD(unreadableBytes, "unreadableBytes")
P_END

P_STRUCT(ReadMemoryRequest)
  P_FIELD(count, "count")
  P_FIELD(memoryReference, "memoryReference")
  P_FIELD(offset, "offset")
P_END

P_STRUCT(RestartFrameResponse)
P_END

P_STRUCT(RestartFrameRequest)
  P_FIELD(frameId, "frameId")
P_END

P_STRUCT(RestartResponse)
P_END

P_STRUCT(RestartRequest)
  P_FIELD(arguments, "arguments")
P_END

P_STRUCT(ReverseContinueResponse)
P_END

P_STRUCT(ReverseContinueRequest)
  P_FIELD(singleThread, "singleThread")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(RunInTerminalResponse)
  P_FIELD(processId, "processId")
  P_FIELD(shellProcessId, "shellProcessId")
P_END

P_STRUCT(RunInTerminalRequest)
  P_FIELD(args, "args")
  P_FIELD(argsCanBeInterpretedByShell, "argsCanBeInterpretedByShell")
  P_FIELD(cwd, "cwd")
  P_FIELD(env, "env")
  P_FIELD(kind, "kind")
  P_FIELD(title, "title")
P_END

P_STRUCT(Scope)
  P_FIELD(column, "column")
  P_FIELD(endColumn, "endColumn")
  P_FIELD(endLine, "endLine")
  P_FIELD(expensive, "expensive")
  P_FIELD(indexedVariables, "indexedVariables")
  P_FIELD(line, "line")
  P_FIELD(name, "name")
  P_FIELD(namedVariables, "namedVariables")
  P_FIELD(presentationHint, "presentationHint")
  P_FIELD(source, "source")
  P_FIELD(variablesReference, "variablesReference")
P_END

P_STRUCT(ScopesResponse)
  P_FIELD(scopes, "scopes")
P_END

P_STRUCT(ScopesRequest)
  P_FIELD(frameId, "frameId")
P_END

P_STRUCT(SetBreakpointsResponse)
  P_FIELD(breakpoints, "breakpoints")
P_END

P_STRUCT(SourceBreakpoint)
  P_FIELD(column, "column")
  P_FIELD(condition, "condition")
  P_FIELD(hitCondition, "hitCondition")
  P_FIELD(line, "line")
  P_FIELD(logMessage, "logMessage")
  P_FIELD(mode, "mode")
P_END

P_STRUCT(SetBreakpointsRequest)
  P_FIELD(breakpoints, "breakpoints")
  P_FIELD(lines, "lines")
  P_FIELD(source, "source")
  P_FIELD(sourceModified, "sourceModified")
P_END

P_STRUCT(SetDataBreakpointsResponse)
  P_FIELD(breakpoints, "breakpoints")
P_END

P_STRUCT(DataBreakpoint)
  P_FIELD(accessType, "accessType")
  P_FIELD(condition, "condition")
  P_FIELD(dataId, "dataId")
  P_FIELD(hitCondition, "hitCondition")
P_END

P_STRUCT(SetDataBreakpointsRequest)
  P_FIELD(breakpoints, "breakpoints")
P_END

P_STRUCT(SetExceptionBreakpointsResponse)
  P_FIELD(breakpoints, "breakpoints")
P_END

P_STRUCT(ExceptionPathSegment)
  P_FIELD(names, "names")
  P_FIELD(negate, "negate")
P_END

P_STRUCT(ExceptionOptions)
  P_FIELD(breakMode, "breakMode")
  P_FIELD(path, "path")
P_END

P_STRUCT(ExceptionFilterOptions)
  P_FIELD(condition, "condition")
  P_FIELD(filterId, "filterId")
  P_FIELD(mode, "mode")
P_END

P_STRUCT(SetExceptionBreakpointsRequest)
  P_FIELD(exceptionOptions, "exceptionOptions")
  P_FIELD(filterOptions, "filterOptions")
  P_FIELD(filters, "filters")
P_END

P_STRUCT(SetExpressionResponse)
  P_FIELD(indexedVariables, "indexedVariables")
  P_FIELD(memoryReference, "memoryReference")
  P_FIELD(namedVariables, "namedVariables")
  P_FIELD(presentationHint, "presentationHint")
  P_FIELD(type, "type")
  P_FIELD(value, "value")
  P_FIELD(variablesReference, "variablesReference")
P_END

P_STRUCT(SetExpressionRequest)
  P_FIELD(expression, "expression")
  P_FIELD(format, "format")
  P_FIELD(frameId, "frameId")
  P_FIELD(value, "value")
P_END

P_STRUCT(SetFunctionBreakpointsResponse)
  P_FIELD(breakpoints, "breakpoints")
P_END

P_STRUCT(FunctionBreakpoint)
  P_FIELD(condition, "condition")
  P_FIELD(hitCondition, "hitCondition")
  P_FIELD(name, "name")
P_END

P_STRUCT(SetFunctionBreakpointsRequest)
  P_FIELD(breakpoints, "breakpoints")
P_END

P_STRUCT(SetInstructionBreakpointsResponse)
  P_FIELD(breakpoints, "breakpoints")
P_END

P_STRUCT(InstructionBreakpoint)
  P_FIELD(condition, "condition")
  P_FIELD(hitCondition, "hitCondition")
  P_FIELD(instructionReference, "instructionReference")
  P_FIELD(mode, "mode")
  P_FIELD(offset, "offset")
P_END

P_STRUCT(SetInstructionBreakpointsRequest)
  P_FIELD(breakpoints, "breakpoints")
P_END

P_STRUCT(SetVariableResponse)
  P_FIELD(indexedVariables, "indexedVariables")
  P_FIELD(memoryReference, "memoryReference")
  P_FIELD(namedVariables, "namedVariables")
  P_FIELD(type, "type")
  P_FIELD(value, "value")
  P_FIELD(variablesReference, "variablesReference")
P_END

P_STRUCT(SetVariableRequest)
  P_FIELD(format, "format")
  P_FIELD(name, "name")
  P_FIELD(value, "value")
  P_FIELD(variablesReference, "variablesReference")
P_END

P_STRUCT(SourceResponse)
  P_FIELD(content, "content")
  P_FIELD(mimeType, "mimeType")
P_END

P_STRUCT(SourceRequest)
  P_FIELD(source, "source")
  P_FIELD(sourceReference, "sourceReference")
P_END

P_STRUCT(StackFrame)
  P_FIELD(canRestart, "canRestart")
  P_FIELD(column, "column")
  P_FIELD(endColumn, "endColumn")
  P_FIELD(endLine, "endLine")
  P_FIELD(id, "id")
  P_FIELD(instructionPointerReference, "instructionPointerReference")
  P_FIELD(line, "line")
  P_FIELD(moduleId, "moduleId")
  P_FIELD(name, "name")
  P_FIELD(presentationHint, "presentationHint")
  P_FIELD(source, "source")
P_END

P_STRUCT(StackTraceResponse)
  P_FIELD(stackFrames, "stackFrames")
  P_FIELD(totalFrames, "totalFrames")
P_END

P_STRUCT(StackFrameFormat)
  P_BASE(ValueFormat)
  P_FIELD(includeAll, "includeAll")
  P_FIELD(line, "line")
  P_FIELD(module, "module")
  P_FIELD(parameterNames, "parameterNames")
  P_FIELD(parameterTypes, "parameterTypes")
  P_FIELD(parameterValues, "parameterValues")
  P_FIELD(parameters, "parameters")
P_END

P_STRUCT(StackTraceRequest)
  P_FIELD(format, "format")
  P_FIELD(levels, "levels")
  P_FIELD(startFrame, "startFrame")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(StartDebuggingResponse)
P_END

P_STRUCT(StartDebuggingRequest)
  P_FIELD(configuration, "configuration")
  P_FIELD(request, "request")
P_END

P_STRUCT(StepBackResponse)
P_END

P_STRUCT(StepBackRequest)
  P_FIELD(granularity, "granularity")
  P_FIELD(singleThread, "singleThread")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(StepInResponse)
P_END

P_STRUCT(StepInRequest)
  P_FIELD(granularity, "granularity")
  P_FIELD(singleThread, "singleThread")
  P_FIELD(targetId, "targetId")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(StepInTarget)
  P_FIELD(column, "column")
  P_FIELD(endColumn, "endColumn")
  P_FIELD(endLine, "endLine")
  P_FIELD(id, "id")
  P_FIELD(label, "label")
  P_FIELD(line, "line")
P_END

P_STRUCT(StepInTargetsResponse)
  P_FIELD(targets, "targets")
P_END

P_STRUCT(StepInTargetsRequest)
  P_FIELD(frameId, "frameId")
P_END

P_STRUCT(StepOutResponse)
P_END

P_STRUCT(StepOutRequest)
  P_FIELD(granularity, "granularity")
  P_FIELD(singleThread, "singleThread")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(StoppedEvent)
  P_FIELD(allThreadsStopped, "allThreadsStopped")
  P_FIELD(description, "description")
  P_FIELD(hitBreakpointIds, "hitBreakpointIds")
  P_FIELD(preserveFocusHint, "preserveFocusHint")
  P_FIELD(reason, "reason")
  P_FIELD(text, "text")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(TerminateResponse)
P_END

P_STRUCT(TerminateRequest)
  P_FIELD(restart, "restart")
P_END

P_STRUCT(TerminateThreadsResponse)
P_END

P_STRUCT(TerminateThreadsRequest)
  P_FIELD(threadIds, "threadIds")
P_END

P_STRUCT(TerminatedEvent)
  P_FIELD(restart, "restart")
P_END

P_STRUCT(ThreadEvent)
  P_FIELD(reason, "reason")
  P_FIELD(threadId, "threadId")
P_END

P_STRUCT(Thread)
  P_FIELD(id, "id")
  P_FIELD(name, "name")
P_END

P_STRUCT(ThreadsResponse)
  P_FIELD(threads, "threads")
P_END

P_STRUCT(ThreadsRequest)
P_END

P_STRUCT(Variable)
  P_FIELD(evaluateName, "evaluateName")
  P_FIELD(indexedVariables, "indexedVariables")
  P_FIELD(memoryReference, "memoryReference")
  P_FIELD(name, "name")
  P_FIELD(namedVariables, "namedVariables")
  P_FIELD(presentationHint, "presentationHint")
  P_FIELD(type, "type")
  P_FIELD(value, "value")
  P_FIELD(variablesReference, "variablesReference")
P_END

P_STRUCT(VariablesResponse)
  P_FIELD(variables, "variables")
P_END

P_STRUCT(VariablesRequest)
  P_FIELD(count, "count")
  P_FIELD(filter, "filter")
  P_FIELD(format, "format")
  P_FIELD(start, "start")
  P_FIELD(variablesReference, "variablesReference")
P_END

P_STRUCT(WriteMemoryResponse)
  P_FIELD(bytesWritten, "bytesWritten")
  P_FIELD(offset, "offset")
P_END

P_STRUCT(WriteMemoryRequest)
  P_FIELD(allowPartial, "allowPartial")
  P_FIELD(data, "data")
  P_FIELD(memoryReference, "memoryReference")
  P_FIELD(offset, "offset")
P_END
#endif
#ifdef P_REQUEST
P_REQUEST(AttachRequest, AttachResponse, "attach")
P_REQUEST(BreakpointLocationsRequest, BreakpointLocationsResponse, "breakpointLocations")
P_REQUEST(CancelRequest, CancelResponse, "cancel")
P_REQUEST(CompletionsRequest, CompletionsResponse, "completions")
P_REQUEST(ConfigurationDoneRequest, ConfigurationDoneResponse, "configurationDone")
P_REQUEST(ContinueRequest, ContinueResponse, "continue")
P_REQUEST(DataBreakpointInfoRequest, DataBreakpointInfoResponse, "dataBreakpointInfo")
P_REQUEST(DisassembleRequest, DisassembleResponse, "disassemble")
P_REQUEST(DisconnectRequest, DisconnectResponse, "disconnect")
P_REQUEST(EvaluateRequest, EvaluateResponse, "evaluate")
P_REQUEST(ExceptionInfoRequest, ExceptionInfoResponse, "exceptionInfo")
P_REQUEST(GotoRequest, GotoResponse, "goto")
P_REQUEST(GotoTargetsRequest, GotoTargetsResponse, "gotoTargets")
P_REQUEST(InitializeRequest, InitializeResponse, "initialize")
P_REQUEST(LaunchRequest, LaunchResponse, "launch")
P_REQUEST(LoadedSourcesRequest, LoadedSourcesResponse, "loadedSources")
P_REQUEST(ModulesRequest, ModulesResponse, "modules")
P_REQUEST(NextRequest, NextResponse, "next")
P_REQUEST(PauseRequest, PauseResponse, "pause")
P_REQUEST(ReadMemoryRequest, ReadMemoryResponse, "readMemory")
P_REQUEST(RestartFrameRequest, RestartFrameResponse, "restartFrame")
P_REQUEST(RestartRequest, RestartResponse, "restart")
P_REQUEST(ReverseContinueRequest, ReverseContinueResponse, "reverseContinue")
P_REQUEST(RunInTerminalRequest, RunInTerminalResponse, "runInTerminal")
P_REQUEST(ScopesRequest, ScopesResponse, "scopes")
P_REQUEST(SetBreakpointsRequest, SetBreakpointsResponse, "setBreakpoints")
P_REQUEST(SetDataBreakpointsRequest, SetDataBreakpointsResponse, "setDataBreakpoints")
P_REQUEST(SetExceptionBreakpointsRequest, SetExceptionBreakpointsResponse, "setExceptionBreakpoints")
P_REQUEST(SetExpressionRequest, SetExpressionResponse, "setExpression")
P_REQUEST(SetFunctionBreakpointsRequest, SetFunctionBreakpointsResponse, "setFunctionBreakpoints")
P_REQUEST(SetInstructionBreakpointsRequest, SetInstructionBreakpointsResponse, "setInstructionBreakpoints")
P_REQUEST(SetVariableRequest, SetVariableResponse, "setVariable")
P_REQUEST(SourceRequest, SourceResponse, "source")
P_REQUEST(StackTraceRequest, StackTraceResponse, "stackTrace")
P_REQUEST(StartDebuggingRequest, StartDebuggingResponse, "startDebugging")
P_REQUEST(StepBackRequest, StepBackResponse, "stepBack")
P_REQUEST(StepInRequest, StepInResponse, "stepIn")
P_REQUEST(StepInTargetsRequest, StepInTargetsResponse, "stepInTargets")
P_REQUEST(StepOutRequest, StepOutResponse, "stepOut")
P_REQUEST(TerminateRequest, TerminateResponse, "terminate")
P_REQUEST(TerminateThreadsRequest, TerminateThreadsResponse, "terminateThreads")
P_REQUEST(ThreadsRequest, ThreadsResponse, "threads")
P_REQUEST(VariablesRequest, VariablesResponse, "variables")
P_REQUEST(WriteMemoryRequest, WriteMemoryResponse, "writeMemory")
#endif
#ifdef P_EVENT
P_EVENT(BreakpointEvent, "breakpoint")
P_EVENT(CapabilitiesEvent, "capabilities")
P_EVENT(ContinuedEvent, "continued")
P_EVENT(ExitedEvent, "exited")
P_EVENT(InitializedEvent, "initialized")
P_EVENT(InvalidatedEvent, "invalidated")
P_EVENT(LoadedSourceEvent, "loadedSource")
P_EVENT(MemoryEvent, "memory")
P_EVENT(ModuleEvent, "module")
P_EVENT(OutputEvent, "output")
P_EVENT(ProcessEvent, "process")
P_EVENT(ProgressEndEvent, "progressEnd")
P_EVENT(ProgressStartEvent, "progressStart")
P_EVENT(ProgressUpdateEvent, "progressUpdate")
P_EVENT(StoppedEvent, "stopped")
P_EVENT(TerminatedEvent, "terminated")
P_EVENT(ThreadEvent, "thread")
#endif
