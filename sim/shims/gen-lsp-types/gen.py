#!/usr/bin/env python3
"""Generates src/lib.rs: the subset of gen-lsp-types (LSP 3.18) used by the server.
Struct DSL, one per line:  Name[!flags]: field:Type field?:Type ~flat:Type wire=field:Type
flags: c = Copy, d = no Default, h = Hash+Ord, t(kind) = serde tag."""
import re
STRUCTS = r'''
Position!ch: line:u32 character:u32
Range!ch: start:Position end:Position
Location!d: uri:Uri range:Range
LocationLink!d: origin_selection_range?:Range target_uri:Uri target_range:Range target_selection_range:Range
TextEdit: range:Range new_text:String
AnnotatedTextEdit: annotation_id:String ~text_edit:TextEdit
InsertReplaceEdit: new_text:String insert:Range replace:Range
TextDocumentIdentifier!d: uri:Uri
VersionedTextDocumentIdentifier!d: version:i32 ~text_document_identifier:TextDocumentIdentifier
OptionalVersionedTextDocumentIdentifier!d: version??:i32 ~text_document_identifier:TextDocumentIdentifier
TextDocumentItem!d: uri:Uri language_id:LanguageKind version:i32 text:String
TextDocumentPositionParams!d: text_document:TextDocumentIdentifier position:Position
TextDocumentEdit!d: text_document:OptionalVersionedTextDocumentIdentifier edits:Vec<Edit>
CreateFileOptions: overwrite?:bool ignore_if_exists?:bool
CreateFile!dt(create): uri:Uri options?:CreateFileOptions annotation_id?:String
RenameFile!dt(rename): old_uri:Uri new_uri:Uri options?:CreateFileOptions annotation_id?:String
DeleteFileOptions: recursive?:bool ignore_if_not_exists?:bool
DeleteFile!dt(delete): uri:Uri options?:DeleteFileOptions annotation_id?:String
ChangeAnnotation: label:String needs_confirmation?:bool description?:String
WorkspaceEdit: changes?:HashMap<Uri,Vec<TextEdit>> document_changes?:Vec<DocumentChange> change_annotations?:HashMap<String,ChangeAnnotation>
WorkDoneProgressParams: work_done_token?:ProgressToken
PartialResultParams: partial_result_token?:ProgressToken
WorkDoneProgressOptions: work_done_progress?:bool
WorkDoneProgressBegin!t(begin): title:String cancellable?:bool message?:String percentage?:u32
WorkDoneProgressReport!t(report): cancellable?:bool message?:String percentage?:u32
WorkDoneProgressEnd!t(end): message?:String
WorkDoneProgressCreateParams!d: token:ProgressToken
WorkDoneProgressCancelParams!d: token:ProgressToken
ProgressParams!d: token:ProgressToken value:LspAny
MarkupContent!d: kind:MarkupKind value:String
Command: title:String command:String arguments?:Vec<LspAny> tooltip?:String
CodeLens: range:Range command?:Command data?:LspAny
CodeDescription!d: href:Uri
DiagnosticRelatedInformation!d: location:Location message:String
Diagnostic: range:Range severity?:DiagnosticSeverity code?:Code code_description?:CodeDescription source?:String message:String tags?:Vec<DiagnosticTag> related_information?:Vec<DiagnosticRelatedInformation> data?:LspAny
FullDocumentDiagnosticReport!t(full): result_id?:String items:Vec<Diagnostic>
RelatedFullDocumentDiagnosticReport: related_documents?:LspAny ~full_document_diagnostic_report:FullDocumentDiagnosticReport
UnchangedDocumentDiagnosticReport!t(unchanged): result_id:String
RelatedUnchangedDocumentDiagnosticReport: related_documents?:LspAny ~unchanged_document_diagnostic_report:UnchangedDocumentDiagnosticReport
DiagnosticServerCancellationData: retrigger_request:bool
PublishDiagnosticsParams!d: uri:Uri version?:i32 diagnostics:Vec<Diagnostic>
SymbolTag_!d: x:u32
BaseSymbolInformation!d: name:String kind:SymbolKind tags?:Vec<SymbolTag> container_name?:String
SymbolInformation!d: deprecated?:bool location:Location ~base_symbol_information:BaseSymbolInformation
DocumentSymbol!d: name:String detail?:String kind:SymbolKind tags?:Vec<SymbolTag> deprecated?:bool range:Range selection_range:Range children?:Vec<DocumentSymbol>
WorkspaceSymbol!d: location:WorkspaceSymbolLocation data?:LspAny ~base_symbol_information:BaseSymbolInformation
LocationUriOnly!d: uri:Uri
PrepareRenamePlaceholder: range:Range placeholder:String
SelectionRange: range:Range parent?:Box<SelectionRange>
Hover!d: contents:Contents range?:Range
SignatureHelp: signatures:Vec<SignatureInformation> active_signature?:u32 active_parameter?:ActiveParameter
SignatureInformation: label:String documentation?:Documentation parameters?:Vec<ParameterInformation> active_parameter?:ActiveParameter
ParameterInformation!d: label:ParameterInformationLabel documentation?:Documentation
DocumentHighlight: range:Range kind?:DocumentHighlightKind
InlayHint!d: position:Position label:Label kind?:InlayHintKind text_edits?:Vec<TextEdit> tooltip?:Tooltip padding_left?:bool padding_right?:bool data?:LspAny
InlayHintLabelPart: value:String tooltip?:Tooltip location?:Location command?:Command
CompletionItemLabelDetails: detail?:String description?:String
CompletionItem: label:String label_details?:CompletionItemLabelDetails kind?:CompletionItemKind tags?:Vec<CompletionItemTag> detail?:String documentation?:Documentation deprecated?:bool preselect?:bool sort_text?:String filter_text?:String insert_text?:String insert_text_format?:InsertTextFormat insert_text_mode?:InsertTextMode text_edit?:CompletionItemTextEdit text_edit_text?:String additional_text_edits?:Vec<TextEdit> commit_characters?:Vec<String> command?:Command data?:LspAny
CompletionItemDefaults: commit_characters?:Vec<String> data?:LspAny
CompletionItemApplyKinds: commit_characters?:u32 data?:u32
CompletionList: is_incomplete:bool item_defaults?:CompletionItemDefaults apply_kind?:CompletionItemApplyKinds items:Vec<CompletionItem>
CompletionContext!d: trigger_kind:CompletionTriggerKind trigger_character?:String
CodeActionDisabled: reason:String
CodeAction: title:String kind?:CodeActionKind diagnostics?:Vec<Diagnostic> is_preferred?:bool disabled?:CodeActionDisabled edit?:WorkspaceEdit command?:Command data?:LspAny tags?:Vec<CodeActionTag>
CodeActionContext: diagnostics:Vec<Diagnostic> only?:Vec<CodeActionKind> trigger_kind?:CodeActionTriggerKind
SemanticTokensLegend: token_types:Vec<String> token_modifiers:Vec<String>
SemanticTokensEdit: start:u32 delete_count:u32 data?:Vec<SemanticToken>
MessageActionItem: title:String
ShowMessageParams!d: type=kind:MessageType message:String
ShowMessageRequestParams!d: type=kind:MessageType message:String actions?:Vec<MessageActionItem>
LogMessageParams!d: type=kind:MessageType message:String
ConfigurationItem: scope_uri?:Uri section?:String
ConfigurationParams: items:Vec<ConfigurationItem>
Registration: id:String method:String register_options?:LspAny
RegistrationParams: registrations:Vec<Registration>
Unregistration: id:String method:String
UnregistrationParams: unregisterations:Vec<Unregistration>
FileSystemWatcher!d: glob_pattern:GlobPattern kind?:WatchKind
RelativePattern!d: base_uri:BaseUri pattern:String
DidChangeWatchedFilesRegistrationOptions: watchers:Vec<FileSystemWatcher>
WorkspaceFolder!d: uri:Uri name:String
WorkspaceFoldersChangeEvent: added:Vec<WorkspaceFolder> removed:Vec<WorkspaceFolder>
WorkspaceFoldersInitializeParams: workspace_folders?:WorkspaceFolders
ClientInfo: name:String version?:String
ServerInfo: name:String version?:String
InitializeParams: process_id??:i32 client_info?:ClientInfo locale?:String root_path?:String root_uri??:Uri capabilities:ClientCapabilities initialization_options?:LspAny trace?:String ~workspace_folders_initialize_params:WorkspaceFoldersInitializeParams ~work_done_progress_params:WorkDoneProgressParams
InitializeResult: capabilities:ServerCapabilities server_info?:ServerInfo
InitializedParams:
CancelParams!d: id:Id
DidOpenTextDocumentParams!d: text_document:TextDocumentItem
DidCloseTextDocumentParams!d: text_document:TextDocumentIdentifier
DidSaveTextDocumentParams!d: text_document:TextDocumentIdentifier text?:String
DidChangeTextDocumentParams!d: text_document:VersionedTextDocumentIdentifier content_changes:Vec<TextDocumentContentChangeEvent>
TextDocumentContentChangePartial: range:Range range_length?:u32 text:String
TextDocumentContentChangeWholeDocument: text:String
DidChangeConfigurationParams: settings:LspAny
DidChangeWorkspaceFoldersParams: event:WorkspaceFoldersChangeEvent
FileEvent!d: uri:Uri type=kind:FileChangeType
DidChangeWatchedFilesParams: changes:Vec<FileEvent>
FormattingOptions: tab_size:u32 insert_spaces:bool trim_trailing_whitespace?:bool insert_final_newline?:bool trim_final_newlines?:bool
ReferenceContext: include_declaration:bool
SignatureHelpContext: is_retrigger:bool trigger_character?:String
SemanticTokensParams!d: text_document:TextDocumentIdentifier @w @p
SemanticTokensRangeParams!d: text_document:TextDocumentIdentifier range:Range @w @p
SelectionRangeParams!d: text_document:TextDocumentIdentifier positions:Vec<Position> @w @p
RenameParams!d: new_name:String @t @w
PrepareRenameParams!d: @t @w
ReferenceParams!d: context:ReferenceContext @t @w @p
InlayHintParams!d: text_document:TextDocumentIdentifier range:Range @w
HoverParams!d: @t @w
SignatureHelpParams!d: context?:SignatureHelpContext @t @w
DocumentSymbolParams!d: text_document:TextDocumentIdentifier @w @p
DocumentHighlightParams!d: @t @w @p
DocumentFormattingParams!d: text_document:TextDocumentIdentifier options:FormattingOptions @w
DocumentDiagnosticParams!d: text_document:TextDocumentIdentifier identifier?:String previous_result_id?:String @w @p
DefinitionParams!d: @t @w @p
ImplementationParams!d: @t @w @p
CompletionParams!d: context?:CompletionContext @t @w @p
CodeLensParams!d: text_document:TextDocumentIdentifier @w @p
CodeActionParams!d: text_document:TextDocumentIdentifier range:Range context:CodeActionContext @w @p
WorkspaceSymbolParams: query:String @w @p
CompletionOptions: trigger_characters?:Vec<String> all_commit_characters?:Vec<String> resolve_provider?:bool completion_item?:ServerCompletionItemOptions @o
ServerCompletionItemOptions: label_details_support?:bool
SignatureHelpOptions: trigger_characters?:Vec<String> retrigger_characters?:Vec<String> @o
CodeLensOptions: resolve_provider?:bool @o
RenameOptions: prepare_provider?:bool @o
HoverOptions: @o
DefinitionOptions: @o
ReferenceOptions: @o
DocumentHighlightOptions: @o
DocumentSymbolOptions: label?:String @o
WorkspaceSymbolOptions: resolve_provider?:bool @o
DocumentFormattingOptions: @o
SelectionRangeOptions: @o
InlayHintOptions: resolve_provider?:bool @o
DiagnosticOptions: identifier?:String inter_file_dependencies:bool workspace_diagnostics:bool @o
CodeActionKindDocumentation: kind?:CodeActionKind command:Command
CodeActionOptions: code_action_kinds?:Vec<CodeActionKind> documentation?:Vec<CodeActionKindDocumentation> resolve_provider?:bool @o
SemanticTokensOptions: legend:SemanticTokensLegend range?:LspAny full?:Full @o
SemanticTokensFullDelta: delta?:bool
TextDocumentSyncOptions: open_close?:bool change?:TextDocumentSyncKind will_save?:bool save?:LspAny
ServerCapabilities: position_encoding?:PositionEncodingKind text_document_sync?:TextDocumentSync completion_provider?:CompletionOptions hover_provider?:HoverProvider signature_help_provider?:SignatureHelpOptions definition_provider?:DefinitionProvider references_provider?:ReferencesProvider document_highlight_provider?:DocumentHighlightProvider document_symbol_provider?:DocumentSymbolProvider code_action_provider?:CodeActionProvider code_lens_provider?:CodeLensOptions workspace_symbol_provider?:WorkspaceSymbolProvider document_formatting_provider?:DocumentFormattingProvider rename_provider?:RenameProvider selection_range_provider?:SelectionRangeProvider semantic_tokens_provider?:SemanticTokensProvider inlay_hint_provider?:InlayHintProvider diagnostic_provider?:DiagnosticProvider workspace?:LspAny experimental?:LspAny
ClientCapabilities: workspace?:WorkspaceClientCapabilities text_document?:TextDocumentClientCapabilities notebook_document?:LspAny window?:WindowClientCapabilities general?:GeneralClientCapabilities experimental?:LspAny
WorkspaceClientCapabilities: apply_edit?:bool workspace_edit?:WorkspaceEditClientCapabilities did_change_configuration?:DidChangeConfigurationClientCapabilities did_change_watched_files?:DidChangeWatchedFilesClientCapabilities symbol?:LspAny workspace_folders?:bool configuration?:bool semantic_tokens?:SemanticTokensWorkspaceClientCapabilities code_lens?:CodeLensWorkspaceClientCapabilities file_operations?:FileOperationClientCapabilities inlay_hint?:InlayHintWorkspaceClientCapabilities diagnostics?:DiagnosticWorkspaceClientCapabilities
DidChangeConfigurationClientCapabilities: dynamic_registration?:bool
WorkspaceEditClientCapabilities: document_changes?:bool resource_operations?:Vec<ResourceOperationKind> normalizes_line_endings?:bool change_annotation_support?:ChangeAnnotationsSupportOptions
ChangeAnnotationsSupportOptions: groups_on_label?:bool
DidChangeWatchedFilesClientCapabilities: dynamic_registration?:bool relative_pattern_support?:bool
SemanticTokensWorkspaceClientCapabilities: refresh_support?:bool
CodeLensWorkspaceClientCapabilities: refresh_support?:bool
InlayHintWorkspaceClientCapabilities: refresh_support?:bool
DiagnosticWorkspaceClientCapabilities: refresh_support?:bool
FileOperationClientCapabilities: dynamic_registration?:bool did_create?:bool will_create?:bool did_rename?:bool will_rename?:bool did_delete?:bool will_delete?:bool
TextDocumentClientCapabilities: synchronization?:TextDocumentSyncClientCapabilities completion?:CompletionClientCapabilities hover?:HoverClientCapabilities signature_help?:SignatureHelpClientCapabilities definition?:DefinitionClientCapabilities document_symbol?:DocumentSymbolClientCapabilities code_action?:CodeActionClientCapabilities rename?:LspAny semantic_tokens?:LspAny inlay_hint?:InlayHintClientCapabilities diagnostic?:DiagnosticClientCapabilities
TextDocumentSyncClientCapabilities: dynamic_registration?:bool will_save?:bool will_save_wait_until?:bool did_save?:bool
CompletionClientCapabilities: dynamic_registration?:bool completion_item?:ClientCompletionItemOptions context_support?:bool
ClientCompletionItemOptions: snippet_support?:bool insert_replace_support?:bool resolve_support?:ClientCompletionItemResolveOptions label_details_support?:bool
ClientCompletionItemResolveOptions: properties:Vec<String>
HoverClientCapabilities: dynamic_registration?:bool content_format?:Vec<MarkupKind>
SignatureHelpClientCapabilities: dynamic_registration?:bool signature_information?:ClientSignatureInformationOptions context_support?:bool
ClientSignatureInformationOptions: documentation_format?:Vec<MarkupKind> parameter_information?:ClientSignatureParameterInformationOptions active_parameter_support?:bool
ClientSignatureParameterInformationOptions: label_offset_support?:bool
DefinitionClientCapabilities: dynamic_registration?:bool link_support?:bool
DocumentSymbolClientCapabilities: dynamic_registration?:bool hierarchical_document_symbol_support?:bool
CodeActionClientCapabilities: dynamic_registration?:bool code_action_literal_support?:ClientCodeActionLiteralOptions is_preferred_support?:bool disabled_support?:bool data_support?:bool resolve_support?:ClientCodeActionResolveOptions
ClientCodeActionLiteralOptions: code_action_kind?:LspAny
ClientCodeActionResolveOptions: properties:Vec<String>
InlayHintClientCapabilities: dynamic_registration?:bool resolve_support?:ClientInlayHintResolveOptions
ClientInlayHintResolveOptions: properties:Vec<String>
DiagnosticClientCapabilities: dynamic_registration?:bool related_document_support?:bool
WindowClientCapabilities: work_done_progress?:bool
GeneralClientCapabilities: position_encodings?:Vec<PositionEncodingKind>
'''
INTENUMS = r'''
DiagnosticSeverity: Error=1 Warning=2 Information=3 Hint=4
DiagnosticTag: Unnecessary=1 Deprecated=2
SymbolKind: File=1 Module=2 Namespace=3 Package=4 Class=5 Method=6 Property=7 Field=8 Constructor=9 Enum=10 Interface=11 Function=12 Variable=13 Constant=14 String=15 Number=16 Boolean=17 Array=18 Object=19 Key=20 Null=21 EnumMember=22 Struct=23 Event=24 Operator=25 TypeParameter=26
SymbolTag: Deprecated=1
CompletionItemTag: Deprecated=1
CodeActionTag: LLMGenerated=1
CompletionItemKind: Text=1 Method=2 Function=3 Constructor=4 Field=5 Variable=6 Class=7 Interface=8 Module=9 Property=10 Unit=11 Value=12 Enum=13 Keyword=14 Snippet=15 Color=16 File=17 Reference=18 Folder=19 EnumMember=20 Constant=21 Struct=22 Event=23 Operator=24 TypeParameter=25
CompletionTriggerKind: Invoked=1 TriggerCharacter=2 TriggerForIncompleteCompletions=3
CodeActionTriggerKind: Invoked=1 Automatic=2
InsertTextFormat: PlainText=1 Snippet=2
InsertTextMode: AsIs=1 AdjustIndentation=2
InlayHintKind: Type=1 Parameter=2
DocumentHighlightKind: Text=1 Read=2 Write=3
TextDocumentSyncKind: None=0 Full=1 Incremental=2
MessageType: Error=1 Warning=2 Info=3 Log=4 Debug=5
FileChangeType: Created=1 Changed=2 Deleted=3
WatchKind: Create=1 Change=2 Delete=4
'''
STRENUMS = r'''
ResourceOperationKind: Create=create Rename=rename Delete=delete
MarkupKind: PlainText=plaintext Markdown=markdown
'''
OPENENUMS = r'''
CodeActionKind: Empty= QuickFix=quickfix Refactor=refactor RefactorExtract=refactor.extract RefactorInline=refactor.inline RefactorMove=refactor.move RefactorRewrite=refactor.rewrite Source=source SourceOrganizeImports=source.organizeImports SourceFixAll=source.fixAll Notebook=notebook
SemanticTokenTypes: Namespace=namespace Type=type Class=class Enum=enum Interface=interface Struct=struct TypeParameter=typeParameter Parameter=parameter Variable=variable Property=property EnumMember=enumMember Event=event Function=function Method=method Macro=macro Keyword=keyword Modifier=modifier Comment=comment String=string Number=number Regexp=regexp Operator=operator Decorator=decorator Label=label
'''
UNIONS = r'''
ProgressToken: Int(i32) String(String)
Id: Int(i32) String(String)
Code: Int(i32) String(String)
Documentation: String(String) MarkupContent(MarkupContent)
Tooltip: String(String) MarkupContent(MarkupContent)
Label: String(String) InlayHintLabelPartList(Vec<InlayHintLabelPart>)
Contents: MarkupContent(MarkupContent) String(String)
ParameterInformationLabel: String(String) Tuple((u32,u32))
BaseUri: WorkspaceFolder(WorkspaceFolder) Uri(Uri)
GlobPattern: Pattern(String) RelativePattern(RelativePattern)
TextDocumentContentChangeEvent: TextDocumentContentChangePartial(TextDocumentContentChangePartial) TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument)
CompletionItemTextEdit: InsertReplaceEdit(InsertReplaceEdit) TextEdit(TextEdit)
Edit: AnnotatedTextEdit(AnnotatedTextEdit) TextEdit(TextEdit)
DocumentChange: TextDocumentEdit(TextDocumentEdit) CreateFile(CreateFile) RenameFile(RenameFile) DeleteFile(DeleteFile)
Definition: Location(Location) LocationList(Vec<Location>)
DefinitionResponse: Definition(Definition) DefinitionLinkList(Vec<LocationLink>)
DocumentSymbolResponse: DocumentSymbolList(Vec<DocumentSymbol>) SymbolInformationList(Vec<SymbolInformation>)
WorkspaceSymbolResponse: WorkspaceSymbolList(Vec<WorkspaceSymbol>) SymbolInformationList(Vec<SymbolInformation>)
WorkspaceSymbolLocation: Location(Location) LocationUriOnly(LocationUriOnly)
DocumentDiagnosticReport: RelatedFullDocumentDiagnosticReport(RelatedFullDocumentDiagnosticReport) RelatedUnchangedDocumentDiagnosticReport(RelatedUnchangedDocumentDiagnosticReport)
CodeActionResponse: CodeAction(CodeAction) Command(Command)
CompletionResponse: CompletionList(CompletionList) CompletionItemList(Vec<CompletionItem>)
PrepareRenameResult: Range(Range) Placeholder(PrepareRenamePlaceholder)
Full: Bool(bool) SemanticTokensFullDelta(SemanticTokensFullDelta)
HoverProvider: Bool(bool) HoverOptions(HoverOptions)
DefinitionProvider: Bool(bool) DefinitionOptions(DefinitionOptions)
ReferencesProvider: Bool(bool) ReferenceOptions(ReferenceOptions)
DocumentHighlightProvider: Bool(bool) DocumentHighlightOptions(DocumentHighlightOptions)
DocumentSymbolProvider: Bool(bool) DocumentSymbolOptions(DocumentSymbolOptions)
WorkspaceSymbolProvider: Bool(bool) WorkspaceSymbolOptions(WorkspaceSymbolOptions)
DocumentFormattingProvider: Bool(bool) DocumentFormattingOptions(DocumentFormattingOptions)
SelectionRangeProvider: Bool(bool) SelectionRangeOptions(SelectionRangeOptions)
RenameProvider: Bool(bool) RenameOptions(RenameOptions)
CodeActionProvider: Bool(bool) CodeActionOptions(CodeActionOptions)
InlayHintProvider: Bool(bool) InlayHintOptions(InlayHintOptions)
DiagnosticProvider: DiagnosticOptions(DiagnosticOptions)
SemanticTokensProvider: SemanticTokensOptions(SemanticTokensOptions)
TextDocumentSync: Kind(TextDocumentSyncKind) Options(TextDocumentSyncOptions)
WorkspaceFolders: WorkspaceFolderList(Vec<WorkspaceFolder>) Null
'''
# name | method | params | result | direction
REQS = r'''
Shutdown|shutdown|()|()|C
Initialize|initialize|InitializeParams|InitializeResult|C
ShowMessage|window/showMessageRequest|ShowMessageRequestParams|Option<MessageActionItem>|S
Registration|client/registerCapability|RegistrationParams|()|S
Unregistration|client/unregisterCapability|UnregistrationParams|()|S
WorkDoneProgressCreate|window/workDoneProgress/create|WorkDoneProgressCreateParams|()|S
Configuration|workspace/configuration|ConfigurationParams|Vec<LspAny>|S
SemanticTokens|textDocument/semanticTokens/full|SemanticTokensParams|Option<SemanticTokens>|C
SemanticTokensRange|textDocument/semanticTokens/range|SemanticTokensRangeParams|Option<SemanticTokens>|C
SemanticTokensRefresh|workspace/semanticTokens/refresh|()|()|S
SelectionRange|textDocument/selectionRange|SelectionRangeParams|Option<Vec<SelectionRange>>|C
Rename|textDocument/rename|RenameParams|Option<WorkspaceEdit>|C
PrepareRename|textDocument/prepareRename|PrepareRenameParams|Option<PrepareRenameResult>|C
References|textDocument/references|ReferenceParams|Option<Vec<Location>>|C
InlayHint|textDocument/inlayHint|InlayHintParams|Option<Vec<InlayHint>>|C
InlayHintResolve|inlayHint/resolve|InlayHint|InlayHint|C
InlayHintRefresh|workspace/inlayHint/refresh|()|()|S
Hover|textDocument/hover|HoverParams|Option<Hover>|C
SignatureHelp|textDocument/signatureHelp|SignatureHelpParams|Option<SignatureHelp>|C
DocumentSymbol|textDocument/documentSymbol|DocumentSymbolParams|Option<DocumentSymbolResponse>|C
DocumentHighlight|textDocument/documentHighlight|DocumentHighlightParams|Option<Vec<DocumentHighlight>>|C
DocumentFormatting|textDocument/formatting|DocumentFormattingParams|Option<Vec<TextEdit>>|C
DocumentDiagnostic|textDocument/diagnostic|DocumentDiagnosticParams|DocumentDiagnosticReport|C
DiagnosticRefresh|workspace/diagnostic/refresh|()|()|S
Definition|textDocument/definition|DefinitionParams|Option<DefinitionResponse>|C
Completion|textDocument/completion|CompletionParams|Option<CompletionResponse>|C
CompletionResolve|completionItem/resolve|CompletionItem|CompletionItem|C
CodeLens|textDocument/codeLens|CodeLensParams|Option<Vec<CodeLens>>|C
CodeLensResolve|codeLens/resolve|CodeLens|CodeLens|C
CodeLensRefresh|workspace/codeLens/refresh|()|()|S
CodeAction|textDocument/codeAction|CodeActionParams|Option<Vec<CodeActionResponse>>|C
CodeActionResolve|codeAction/resolve|CodeAction|CodeAction|C
WorkspaceSymbol|workspace/symbol|WorkspaceSymbolParams|Option<WorkspaceSymbolResponse>|C
'''
NOTS = r'''
ShowMessage|window/showMessage|ShowMessageParams|S
LogMessage|window/logMessage|LogMessageParams|S
Progress|$/progress|ProgressParams|B
WorkDoneProgressCancel|window/workDoneProgress/cancel|WorkDoneProgressCancelParams|C
Initialized|initialized|InitializedParams|C
Exit|exit|()|C
Cancel|$/cancelRequest|CancelParams|B
PublishDiagnostics|textDocument/publishDiagnostics|PublishDiagnosticsParams|S
DidOpenTextDocument|textDocument/didOpen|DidOpenTextDocumentParams|C
DidChangeTextDocument|textDocument/didChange|DidChangeTextDocumentParams|C
DidCloseTextDocument|textDocument/didClose|DidCloseTextDocumentParams|C
DidSaveTextDocument|textDocument/didSave|DidSaveTextDocumentParams|C
DidChangeWorkspaceFolders|workspace/didChangeWorkspaceFolders|DidChangeWorkspaceFoldersParams|C
DidChangeWatchedFiles|workspace/didChangeWatchedFiles|DidChangeWatchedFilesParams|C
DidChangeConfiguration|workspace/didChangeConfiguration|DidChangeConfigurationParams|C
'''
out = []
w = out.append
w(open('src/head.rs').read())
lines = lambda s: [l for l in s.strip().splitlines() if l.strip()]
for l in lines(STRUCTS):
    name, fields = l.split(':', 1)
    flags = ''
    if '!' in name: name, flags = name.split('!', 1)
    m = re.search(r't\((\w+)\)', flags); tag = m and m.group(1)
    flags = re.sub(r't\(\w+\)', '', flags)
    fields = fields.replace('@t', '~text_document_position_params:TextDocumentPositionParams').replace('@w', '~work_done_progress_params:WorkDoneProgressParams').replace('@p', '~partial_result_params:PartialResultParams').replace('@o', '~work_done_progress_options:WorkDoneProgressOptions')
    if name.endswith('_'): continue
    der = 'Debug, Clone, PartialEq, Eq, Serialize, Deserialize'
    if 'd' not in flags: der += ', Default'
    copyable = all(f.split(':',1)[1] in ('bool','u32','i32') and not f.startswith('~') for f in fields.split())
    if 'c' in flags or (copyable and 'd' not in flags and not tag): der += ', Copy'
    if 'h' in flags: der += ', Hash, PartialOrd, Ord'
    w(f'#[derive({der})]\n#[serde(rename_all = "camelCase")]')
    if tag: w(f'#[serde(tag = "kind", rename = "{tag}")]')
    w(f'pub struct {name} {{')
    args = []
    for f in fields.split():
        fn, ty = f.split(':', 1)
        attrs = []
        if '=' in fn:
            wire, fn = fn.split('='); attrs.append(f'rename = "{wire}"')
        if fn.startswith('~'): fn = fn[1:]; attrs.append('flatten')
        if fn.endswith('??'): fn = fn[:-2]; ty = f'Option<{ty}>'; attrs.append('default')
        elif fn.endswith('?'):
            fn = fn[:-1]; ty = f'Option<{ty}>'; attrs.append('default, skip_serializing_if = "Option::is_none"')
        elif ty.startswith('Vec<') or ty == 'ClientCapabilities': attrs.append('default')
        if attrs: w(f'    #[serde({", ".join(attrs)})]')
        w(f'    pub {fn}: {ty},'); args.append((fn, ty))
    w('}')
    if args and len(args) <= 6:
        w(f'impl {name} {{ pub const fn new({", ".join(f"{a}: {t}" for a, t in args)}) -> Self {{ Self {{ {", ".join(a for a, _ in args)} }} }} }}')
for l in lines(INTENUMS):
    name, vs = l.split(':', 1)
    vs = [v.split('=') for v in vs.split()]
    w(f'#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]\npub enum {name} {{ {", ".join(f"{a} = {b}" for a, b in vs)} }}')
    w(f'''impl Serialize for {name} {{ fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {{ s.serialize_u32(*self as u32) }} }}
impl<'de> Deserialize<'de> for {name} {{ fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {{
    let n = u32::deserialize(d)?; match n {{ {" ".join(f"{b} => Ok({name}::{a})," for a, b in vs)} _ => Err(serde::de::Error::custom(format!("unknown {name}: {{n}}"))) }} }} }}''')
for l in lines(STRENUMS):
    name, vs = l.split(':', 1)
    w(f'#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]\npub enum {name} {{')
    for v in vs.split():
        a, b = v.split('='); w(f'    #[serde(rename = "{b}")] {a},')
    w('}')
for l in lines(OPENENUMS):
    name, vs = l.split(':', 1)
    vs = [v.split('=') for v in vs.split()]
    w(f'#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub enum {name} {{ {", ".join(a for a, _ in vs)}, Custom(std::borrow::Cow<\'static, str>) }}')
    w(f'''impl {name} {{
    pub const fn new(s: &'static str) -> Self {{ Self::Custom(std::borrow::Cow::Borrowed(s)) }}
    pub fn as_str(&self) -> &str {{ match self {{ {" ".join(f'Self::{a} => "{b}",' for a, b in vs)} Self::Custom(s) => s }} }}
}}
impl Serialize for {name} {{ fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {{ s.serialize_str(self.as_str()) }} }}
impl<'de> Deserialize<'de> for {name} {{ fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {{
    let n = String::deserialize(d)?; Ok(match n.as_str() {{ {" ".join(f'"{b}" => Self::{a},' for a, b in vs)} _ => Self::Custom(n.into()) }}) }} }}''')
for l in lines(UNIONS):
    name, vs = l.split(':', 1)
    vs = vs.split()
    copy = name == 'ActiveParameter'
    w(f'#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]\n#[serde(untagged)]\n#[allow(clippy::large_enum_variant)]\npub enum {name} {{ {", ".join(vs)} }}')
    seen = set()
    for v in vs:
        m = re.match(r'(\w+)\((.*)\)$', v)
        if m and m.group(2) not in seen:
            seen.add(m.group(2))
            w(f'impl From<{m.group(2)}> for {name} {{ fn from(x: {m.group(2)}) -> Self {{ {name}::{m.group(1)}(x) }} }}')
D = {'C': 'ClientToServer', 'S': 'ServerToClient', 'B': 'Both'}
for l in lines(REQS):
    n, m, p, r, d = l.split('|')
    w(f'''#[derive(Debug)] pub enum {n}Request {{}}
impl Request for {n}Request {{ type Params = {p}; type Result = {r}; const METHOD: LspRequestMethod = LspRequestMethod::new("{m}"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::{D[d]}; }}''')
for l in lines(NOTS):
    n, m, p, d = l.split('|')
    w(f'''#[derive(Debug)] pub enum {n}Notification {{}}
impl Notification for {n}Notification {{ type Params = {p}; const METHOD: LspNotificationMethod = LspNotificationMethod::new("{m}"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::{D[d]}; }}''')
open('src/lib.rs', 'w').write('\n'.join(out) + '\n')
