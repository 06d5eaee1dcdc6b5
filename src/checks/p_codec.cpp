// P18: protocol values decode and encode without loss. Every protocol structure
// is described below by a schema of its own; all documents of the bounded space
// are decoded, dumped field by field, encoded again, and compared with what the
// schema says.
#include "../mc/mc.h"
#include "lspserver/Protocol.h"
#include "nixd/Protocol/AttrSet.h"
#include "nixd/Protocol/Protocol.h"
#include <functional>
#include <map>
#include <set>

using namespace mc;
using namespace lspserver;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static Str show(const Value &V) {
  Str R;
  llvm::raw_string_ostream OS(R);
  OS << V;
  return R;
}
static Value J(const Str &S) {
  auto V = llvm::json::parse(S);
  if (!V) {
    llvm::consumeError(V.takeError());
    fprintf(stderr, "bad JSON in the check: %s\n", S.c_str());
    abort();
  }
  return *V;
}

// ---- what decoded values hold -------------------------------------------------
static Value D(const Str &S) { return S; }
static Value D(int64_t I) { return I; }
static Value D(int I) { return I; }
static Value D(bool B) { return B; }
static Value D(const Value &V) { return V; }
static Value D(const Object &V) { return Value(Object(V)); }
static Value D(const URIForFile &U) { return U.file().empty() ? Value(nullptr) : Value(Str("file:") + U.file().str()); }
template <class T> static Value D(const std::optional<T> &V);
template <class T> static Value D(const std::vector<T> &V);
template <class T> static Value D(const std::map<Str, T> &V);
static Value D(const CodeAction &);
static Value D(const Position &P) { return Object{{"line", P.line}, {"character", P.character}}; }
static Value D(const Range &P) { return Object{{"start", D(P.start)}, {"end", D(P.end)}}; }
static Value D(const Location &P) { return Object{{"uri", D(P.uri)}, {"range", D(P.range)}}; }
static Value D(const TextDocumentIdentifier &P) { return Object{{"uri", D(P.uri)}}; }
static Value D(const VersionedTextDocumentIdentifier &P) { return Object{{"uri", D(P.uri)}, {"version", D(P.version)}}; }
static Value D(const TextDocumentItem &P) { return Object{{"uri", D(P.uri)}, {"languageId", P.languageId}, {"version", D(P.version)}, {"text", P.text}}; }
static Value D(const TextEdit &P) { return Object{{"range", D(P.range)}, {"newText", P.newText}, {"annotationId", P.annotationId}}; }
static Value D(const ChangeAnnotation &P) { return Object{{"label", P.label}, {"needsConfirmation", D(P.needsConfirmation)}, {"description", P.description}}; }
static Value D(const TextDocumentEdit &P) { return Object{{"textDocument", D(P.textDocument)}, {"edits", D(P.edits)}}; }
static Value D(const CreateFileOptions &P) { return Object{{"overwrite", D(P.overwrite)}, {"ignoreIfExists", D(P.ignoreIfExists)}}; }
static Value D(const RenameFileOptions &P) { return Object{{"overwrite", D(P.overwrite)}, {"ignoreIfExists", D(P.ignoreIfExists)}}; }
static Value D(const DeleteFileOptions &P) { return Object{{"recursive", D(P.recursive)}, {"ignoreIfNotExists", D(P.ignoreIfNotExists)}}; }
static Value D(const CreateFile &P) { return Object{{"kind", "create"}, {"uri", D(P.uri)}, {"options", D(P.options)}, {"annotationId", D(P.annotationId)}}; }
static Value D(const RenameFile &P) { return Object{{"kind", "rename"}, {"oldUri", D(P.oldUri)}, {"newUri", D(P.newUri)}, {"options", D(P.options)}, {"annotationId", D(P.annotationId)}}; }
static Value D(const DeleteFile &P) { return Object{{"kind", "delete"}, {"uri", D(P.uri)}, {"options", D(P.options)}, {"annotationId", D(P.annotationId)}}; }
static Value D(const DocumentChange &C) {
  return std::visit([](const auto &X) { return D(X); }, C);
}
static Value D(const WorkspaceEdit &P) { return Object{{"changes", D(P.changes)}, {"documentChanges", D(P.documentChanges)}, {"changeAnnotations", D(P.changeAnnotations)}}; }
static Value D(const TextDocumentContentChangeEvent &P) { return Object{{"range", D(P.range)}, {"rangeLength", D(P.rangeLength)}, {"text", P.text}}; }
static Value D(const DidChangeTextDocumentParams &P) { return Object{{"textDocument", D(P.textDocument)}, {"contentChanges", D(P.contentChanges)}, {"wantDiagnostics", D(P.wantDiagnostics)}, {"forceRebuild", P.forceRebuild}}; }
static Value D(const Diagnostic &P) { return Object{{"range", D(P.range)}, {"message", P.message}, {"severity", P.severity}, {"category", D(P.category)}, {"code", P.code}, {"source", P.source}, {"data", D(P.data)}}; }
static Value D(const CodeActionContext &P) { return Object{{"diagnostics", D(P.diagnostics)}, {"only", D(P.only)}}; }
static Value D(const CodeActionParams &P) { return Object{{"textDocument", D(P.textDocument)}, {"range", D(P.range)}, {"context", D(P.context)}}; }
static Value D(const CodeAction &P) { return Object{{"title", P.title}, {"kind", D(P.kind)}, {"diagnostics", D(P.diagnostics)}, {"isPreferred", P.isPreferred}, {"edit", D(P.edit)}, {"data", D(P.data)}}; }
static Value D(const CompletionContext &P) { return Object{{"triggerKind", int(P.triggerKind)}, {"triggerCharacter", P.triggerCharacter}}; }
static Value D(const CompletionParams &P) { return Object{{"textDocument", D(P.textDocument)}, {"position", D(P.position)}, {"limit", D(P.limit)}, {"context", D(P.context)}}; }
static Value D(const MarkupContent &P) { return Object{{"kind", P.kind == MarkupKind::Markdown ? "markdown" : "plaintext"}, {"value", P.value}}; }
static Value D(const CompletionItem &P) {
  return Object{{"label", P.label}, {"kind", int(P.kind)}, {"detail", P.detail}, {"documentation", D(P.documentation)}, {"sortText", P.sortText}, {"filterText", P.filterText}, {"insertText", P.insertText}, {"insertTextFormat", int(P.insertTextFormat)}, {"textEdit", D(P.textEdit)}, {"additionalTextEdits", D(P.additionalTextEdits)}, {"data", P.data}};
}
static Value D(const RenameParams &P) { return Object{{"textDocument", D(P.textDocument)}, {"position", D(P.position)}, {"newName", P.newName}}; }
static Value D(const ReferenceContext &P) { return Object{{"includeDeclaration", P.includeDeclaration}}; }
static Value D(const ReferenceParams &P) { return Object{{"textDocument", D(P.textDocument)}, {"position", D(P.position)}, {"context", D(P.context)}}; }
static Value D(const TextDocumentPositionParams &P) { return Object{{"textDocument", D(P.textDocument)}, {"position", D(P.position)}}; }
static Value D(const ShowDocumentResult &P) { return Object{{"success", P.success}}; }
static Value D(const ApplyWorkspaceEditResponse &P) { return Object{{"applied", P.applied}, {"failureReason", D(P.failureReason)}}; }
static Value D(const WorkspaceSymbolParams &P) { return Object{{"query", P.query}, {"limit", D(P.limit)}}; }
static Value D(const ExecuteCommandParams &P) { return Object{{"command", P.command}, {"argument", P.argument}}; }
static Value D(const InitializeParams &P) { return Object{{"processId", D(P.processId)}, {"rootUri", D(P.rootUri)}, {"rootPath", D(P.rootPath)}, {"raw", D(P.rawCapabilities)}, {"conf", P.capabilities.WorkspaceConfiguration}}; }
template <class T> static Value DocOnly(const T &P) { return Object{{"textDocument", D(P.textDocument)}}; }
static Value D(const DidOpenTextDocumentParams &P) { return DocOnly(P); }
static Value D(const DidCloseTextDocumentParams &P) { return DocOnly(P); }
static Value D(const DidSaveTextDocumentParams &P) { return DocOnly(P); }
static Value D(const DocumentFormattingParams &P) { return DocOnly(P); }
static Value D(const DocumentSymbolParams &P) { return DocOnly(P); }
static Value D(const SemanticTokensParams &P) { return DocOnly(P); }
static Value D(const DocumentLinkParams &P) { return DocOnly(P); }
static Value D(const FoldingRangeParams &P) { return DocOnly(P); }
template <class T> static Value DocRange(const T &P) { return Object{{"textDocument", D(P.textDocument)}, {"range", D(P.range)}}; }
static Value D(const InlayHintsParams &P) { return DocRange(P); }
static Value D(const DocumentRangeFormattingParams &P) { return DocRange(P); }
static Value D(const SelectionRangeParams &P) { return Object{{"textDocument", D(P.textDocument)}, {"positions", D(P.positions)}}; }
static Value D(const nixd::OptionType &P) { return Object{{"Description", D(P.Description)}, {"Name", D(P.Name)}}; }
static Value D(const nixd::OptionDescription &P) { return Object{{"Description", D(P.Description)}, {"Declarations", D(P.Declarations)}, {"Definitions", D(P.Definitions)}, {"Example", D(P.Example)}, {"Default", D(P.Default)}, {"Type", D(P.Type)}}; }
static Value D(const nixd::OptionField &P) { return Object{{"Name", P.Name}, {"Description", D(P.Description)}}; }
static Value D(const nixd::PackageDescription &P) { return Object{{"Name", D(P.Name)}, {"PName", D(P.PName)}, {"Version", D(P.Version)}, {"Description", D(P.Description)}, {"LongDescription", D(P.LongDescription)}, {"Position", D(P.Position)}, {"Homepage", D(P.Homepage)}}; }
static Value D(const nixd::ValueMeta &P) { return Object{{"Type", P.Type}, {"Location", D(P.Location)}}; }
static Value D(const nixd::ValueDescription &P) { return Object{{"arity", P.Arity}, {"doc", P.Doc}, {"args", D(P.Args)}}; }
static Value D(const nixd::AttrPathInfoResponse &P) { return Object{{"Meta", D(P.Meta)}, {"PackageDesc", D(P.PackageDesc)}, {"ValueDesc", D(P.ValueDesc)}}; }
static Value D(const nixd::AttrPathCompleteParams &P) { return Object{{"Scope", D(P.Scope)}, {"Prefix", P.Prefix}}; }
static Value D(const nixd::rpc::RegisterBCParams &P) { return Object{{"Shm", P.Shm}, {"BasePath", P.BasePath}, {"CachePath", P.CachePath}, {"Size", P.Size}}; }
static Value D(const nixd::rpc::ExprValueParams &P) { return Object{{"ExprID", P.ExprID}}; }
static Value D(const nixd::rpc::ExprValueResponse &P) { return Object{{"ResultKind", P.ResultKind}, {"ValueID", P.ValueID}, {"ValueKind", P.ValueKind}}; }
template <class T> static Value D(const std::optional<T> &V) {
  if (!V) return nullptr;
  return D(*V);
}
template <class T> static Value D(const std::vector<T> &V) {
  Array A;
  for (auto &X : V) A.push_back(D(X));
  return A;
}
template <class T> static Value D(const std::map<Str, T> &V) {
  Object A;
  for (auto &X : V) A[X.first] = D(X.second);
  return A;
}

// ---- schemas ------------------------------------------------------------------
// A field is NAME:TYPE followed by ! (required), ? (may be absent or null, null
// when absent), =DEFAULT (may be absent; whether null is accepted is left open),
// ^DEFAULT (as =, and null is accepted), %DEFAULT (as =, and a value of the
// wrong type may also be ignored). A leading - says that encoding omits the field
// where it holds its default.
// TYPE: str int bool any obj uri, a structure's name, [TYPE], {TYPE}, or A|B.
struct Field {
  Str Name, Type;
  char Need;
  Value Def = nullptr;
  bool Omit;
};
struct Schema {
  std::vector<Field> F;
  bool Variant = false;
};
static std::map<Str, Schema> Schemas;
static std::vector<Str> Order;
static void def(const Str &Name, const Str &Spec) {
  Schema S;
  for (size_t P = 0; P < Spec.size();) {
    if (Spec[P] == ' ') {
      ++P;
      continue;
    }
    Field F;
    F.Omit = Spec[P] == '-';
    P += F.Omit;
    size_t C = Spec.find(':', P);
    F.Name = Spec.substr(P, C - P);
    size_t E = Spec.find_first_of("!?=^%", C);
    F.Type = Spec.substr(C + 1, E - C - 1);
    F.Need = Spec[E];
    size_t N = std::min(Spec.find(' ', E), Spec.size());
    if (F.Need == '=' || F.Need == '^' || F.Need == '%') F.Def = J(Spec.substr(E + 1, N - E - 1));
    P = N;
    S.F.push_back(F);
  }
  Schemas[Name] = S;
  Order.push_back(Name);
}

/// 0: not of the type, 1: of the type (and what decoding must give), 2: left open.
static int want(const Str &T, const Value &V, Value &Out);
static int wantStruct(const Str &T, const Value &V, Value &Out) {
  auto &S = Schemas.at(T);
  auto *O = V.getAsObject();
  if (!O) return T == "MarkupContent" && V.getAsString() ? 2 : 0; // as documentation
  if (T == "DocumentChange") {
    if (auto K = O->getString("kind")) {
      if (*K == "create") return wantStruct("CreateFile", V, Out);
      if (*K == "rename") return wantStruct("RenameFile", V, Out);
      if (*K == "delete") return wantStruct("DeleteFile", V, Out);
      return 0;
    }
    if (O->get("kind")) return 2;
    return wantStruct("TextDocumentEdit", V, Out);
  }
  Object R;
  int Res = 1;
  for (auto &F : S.F) {
    auto *X = O->get(F.Name);
    Value W = nullptr;
    if (!X || (X->getAsNull() && F.Type != "any")) {
      if (F.Need == '!') return 0;
      if (X && (F.Need == '=' || F.Need == '%')) Res = 2;
      R[F.Name] = F.Def;
      continue;
    }
    int A = want(F.Type, *X, W);
    if (A == 0 && F.Need != '%') return 0;
    if (A != 1) Res = 2;
    R[F.Name] = std::move(W);
  }
  Out = std::move(R);
  return Res;
}
static int want(const Str &T, const Value &V, Value &Out) {
  auto Bar = T.find('|');
  if (Bar != Str::npos) {
    int A = want(T.substr(0, Bar), V, Out);
    if (A == 1) return 1;
    if (int B = want(T.substr(Bar + 1), V, Out)) return B;
    return A;
  }
  if (T[0] == '[') {
    auto *A = V.getAsArray();
    if (!A) return 0;
    Array R;
    int Res = 1;
    for (auto &X : *A) {
      Value W = nullptr;
      int K = want(T.substr(1, T.size() - 2), X, W);
      if (!K) return 0;
      if (K == 2) Res = 2;
      R.push_back(std::move(W));
    }
    Out = std::move(R);
    return Res;
  }
  if (T[0] == '{') {
    auto *A = V.getAsObject();
    if (!A) return 0;
    Object R;
    int Res = 1;
    for (auto &X : *A) {
      Value W = nullptr;
      int K = want(T.substr(1, T.size() - 2), X.second, W);
      if (!K) return 0;
      if (K == 2) Res = 2;
      R[X.first] = std::move(W);
    }
    Out = std::move(R);
    return Res;
  }
  if (T == "any") return Out = V, 1;
  if (T == "str") {
    if (auto S = V.getAsString()) return Out = S->str(), 1;
    return 0;
  }
  if (T == "textdoc") { // documentation given as plain text
    if (auto S = V.getAsString()) return Out = Object{{"kind", "plaintext"}, {"value", S->str()}}, 1;
    return 0;
  }
  if (T == "intstr") { // a number as text
    if (auto S = V.getAsInteger()) return Out = std::to_string(*S), 1;
    return 0;
  }
  if (T == "kind") {
    auto S = V.getAsString();
    if (!S || (*S != "plaintext" && *S != "markdown")) return 0;
    return Out = S->str(), 1;
  }
  if (T == "bool") {
    if (auto S = V.getAsBoolean()) return Out = *S, 1;
    return 0;
  }
  if (T == "int") {
    if (V.kind() != Value::Number) return 0;
    if (auto S = V.getAsInteger()) return Out = *S, 1;
    return 0;
  }
  if (T == "obj") {
    if (auto *S = V.getAsObject()) return Out = Value(Object(*S)), 1;
    return 0;
  }
  if (T == "uri") {
    auto S = V.getAsString();
    if (!S || !S->starts_with("file:///")) return 0;
    return Out = "file:" + S->substr(7).str(), 1;
  }
  return wantStruct(T, V, Out);
}

/// The encoding of a value that decoding gave (as dumped).
static Value encoded(const Str &T, const Value &V);
static Value encStruct(const Str &T, const Value &V) {
  auto *O = V.getAsObject();
  Str N = T;
  if (T == "DocumentChange") {
    auto K = O->getString("kind");
    N = !K ? "TextDocumentEdit" : *K == "create" ? "CreateFile" : *K == "rename" ? "RenameFile" : "DeleteFile";
  }
  Object R;
  for (auto &F : Schemas.at(N).F) {
    auto &X = *O->get(F.Name);
    if (F.Omit && X == F.Def) continue;
    if (X.getAsNull()) {
      R[F.Name] = nullptr;
      continue;
    }
    R[F.Name] = encoded(F.Type, X);
  }
  return R;
}
static Value encoded(const Str &T, const Value &V) {
  if (T.find('|') != Str::npos) return T.substr(0, 6) == "Markup" ? encoded("MarkupContent", V) : V;
  if (T[0] == '[') {
    Array A;
    for (auto &X : *V.getAsArray()) A.push_back(encoded(T.substr(1, T.size() - 2), X));
    return A;
  }
  if (T[0] == '{') {
    Object A;
    for (auto &X : *V.getAsObject()) A[X.first] = encoded(T.substr(1, T.size() - 2), X.second);
    return A;
  }
  if (T == "uri") return "file://" + V.getAsString()->substr(5).str();
  if (T == "MarkupContent" && V.getAsObject()->getString("value")->empty()) return nullptr;
  return Schemas.count(T) ? encStruct(T, V) : V;
}

// ---- the real code ------------------------------------------------------------
struct Codec {
  std::function<std::optional<Value>(const Value &)> Decode;
  std::function<Value(const Value &)> Encode; ///< decode, then toJSON
};
static std::map<Str, Codec> Codecs;
template <class T> static bool dec(const Value &V, T &R) {
  llvm::json::Path::Root Root;
  return fromJSON(V, R, Root);
}
template <class T> static void reg(const Str &Name) {
  Codecs[Name].Decode = [](const Value &V) -> std::optional<Value> {
    T R{};
    if (!dec(V, R)) return std::nullopt;
    return D(R);
  };
}
template <class T> static void regBoth(const Str &Name) {
  reg<T>(Name);
  Codecs[Name].Encode = [](const Value &V) -> Value {
    T R{};
    if (!dec(V, R)) return nullptr;
    return toJSON(R);
  };
}

static void define() {
  def("Position", "line:int! character:int!");
  def("Range", "start:Position! end:Position!");
  def("Location", "uri:uri! range:Range!");
  def("TextDocumentIdentifier", "uri:uri!");
  def("VersionedTextDocumentIdentifier", "uri:uri! version:int?");
  def("TextDocumentItem", "uri:uri! languageId:str! version:int? text:str!");
  def("TextEdit", "range:Range! newText:str! -annotationId:str=\"\"");
  def("ChangeAnnotation", "label:str! -needsConfirmation:bool? -description:str=\"\"");
  def("TextDocumentEdit", "textDocument:VersionedTextDocumentIdentifier! edits:[TextEdit]!");
  def("CreateFileOptions", "-overwrite:bool%null -ignoreIfExists:bool%null");
  def("DeleteFileOptions", "-recursive:bool%null -ignoreIfNotExists:bool%null");
  def("CreateFile", "kind:str! uri:uri! -options:CreateFileOptions%null -annotationId:str%null");
  def("RenameFile", "kind:str! oldUri:uri! newUri:uri! -options:CreateFileOptions%null -annotationId:str%null");
  def("DeleteFile", "kind:str! uri:uri! -options:DeleteFileOptions%null -annotationId:str%null");
  def("DocumentChange", "");
  def("WorkspaceEdit", "-changes:{[TextEdit]}? -documentChanges:[DocumentChange]? -changeAnnotations:{ChangeAnnotation}={}");
  def("DidOpenTextDocumentParams", "textDocument:TextDocumentItem!");
  for (auto *N : {"DidCloseTextDocumentParams", "DidSaveTextDocumentParams", "DocumentFormattingParams", "DocumentSymbolParams", "SemanticTokensParams", "DocumentLinkParams", "FoldingRangeParams"})
    def(N, "textDocument:TextDocumentIdentifier!");
  def("TextDocumentContentChangeEvent", "range:Range? rangeLength:int? text:str!");
  def("DidChangeTextDocumentParams", "textDocument:VersionedTextDocumentIdentifier! contentChanges:[TextDocumentContentChangeEvent]! wantDiagnostics:bool? forceRebuild:bool^false");
  def("Diagnostic", "range:Range! message:str! severity:int^0 -category:str? -code:str|intstr^\"\" -source:str^\"\" -data:obj%{}");
  def("CodeActionContext", "diagnostics:[Diagnostic]! only:[str]%[]");
  def("CodeActionParams", "textDocument:TextDocumentIdentifier! range:Range! context:CodeActionContext!");
  def("CodeAction", "title:str! -kind:str%null -diagnostics:[Diagnostic]%null -isPreferred:bool%false -edit:WorkspaceEdit%null -data:any%null");
  def("CompletionContext", "triggerKind:int! triggerCharacter:str^\"\"");
  def("CompletionParams", "textDocument:TextDocumentIdentifier! position:Position! limit:int? context:CompletionContext={\"triggerKind\":1,\"triggerCharacter\":\"\"}");
  def("MarkupContent", "kind:kind! value:str=\"\"");
  def("CompletionItem", "label:str! -kind:int=0 -detail:str=\"\" -documentation:MarkupContent|textdoc? -sortText:str=\"\" -filterText:str=\"\" -insertText:str=\"\" -insertTextFormat:int=0 -textEdit:TextEdit? -additionalTextEdits:[TextEdit]=[] data:str=\"\"");
  def("RenameParams", "textDocument:TextDocumentIdentifier! position:Position! newName:str!");
  def("ReferenceContext", "includeDeclaration:bool=false");
  def("ReferenceParams", "textDocument:TextDocumentIdentifier! position:Position! context:ReferenceContext={\"includeDeclaration\":false}");
  def("TextDocumentPositionParams", "textDocument:TextDocumentIdentifier! position:Position!");
  def("ShowDocumentResult", "success:bool!");
  def("ApplyWorkspaceEditResponse", "applied:bool! failureReason:str?");
  def("WorkspaceSymbolParams", "query:str! limit:int?");
  def("InlayHintsParams", "textDocument:TextDocumentIdentifier! range:Range?");
  def("DocumentRangeFormattingParams", "textDocument:TextDocumentIdentifier! range:Range!");
  def("SelectionRangeParams", "textDocument:TextDocumentIdentifier! positions:[Position]!");
  def("OptionType", "Description:str? Name:str?");
  def("OptionDescription", "Description:str? Declarations:[Location]=[] Definitions:[Location]=[] Example:str? Default:str? Type:OptionType?");
  def("OptionField", "Name:str=\"\" Description:OptionDescription?");
  def("PackageDescription", "Name:str? PName:str? Version:str? Description:str? LongDescription:str? Position:str? Homepage:str?");
  def("ValueMeta", "Type:int! Location:Location?");
  def("ValueDescription", "arity:int! doc:str! args:[str]!");
  def("AttrPathInfoResponse", "Meta:ValueMeta! PackageDesc:PackageDescription={\"Name\":null,\"PName\":null,\"Version\":null,\"Description\":null,\"LongDescription\":null,\"Position\":null,\"Homepage\":null} ValueDesc:ValueDescription?");
  def("AttrPathCompleteParams", "Scope:[str]! Prefix:str!");
  def("RegisterBCParams", "Shm:str! BasePath:str! CachePath:str! Size:int!");
  def("ExprValueParams", "ExprID:int!");
  def("ExprValueResponse", "ResultKind:int! ValueID:int! ValueKind:int!");

#define B(X) regBoth<X>(#X)
#define R(X) reg<X>(#X)
  B(Position);
  B(Range);
  B(Location);
  B(TextDocumentIdentifier);
  B(VersionedTextDocumentIdentifier);
  R(TextDocumentItem);
  B(TextEdit);
  B(ChangeAnnotation);
  B(TextDocumentEdit);
  B(DocumentChange);
  B(WorkspaceEdit);
  R(DidOpenTextDocumentParams);
  R(DidCloseTextDocumentParams);
  R(DidSaveTextDocumentParams);
  R(DocumentFormattingParams);
  R(DocumentSymbolParams);
  R(SemanticTokensParams);
  R(DocumentLinkParams);
  R(FoldingRangeParams);
  R(TextDocumentContentChangeEvent);
  R(DidChangeTextDocumentParams);
  B(Diagnostic);
  R(CodeActionContext);
  R(CodeActionParams);
  B(CodeAction);
  R(CompletionContext);
  R(CompletionParams);
  B(MarkupContent);
  B(CompletionItem);
  R(RenameParams);
  R(ReferenceParams);
  R(TextDocumentPositionParams);
  R(ShowDocumentResult);
  R(ApplyWorkspaceEditResponse);
  R(WorkspaceSymbolParams);
  R(InlayHintsParams);
  R(DocumentRangeFormattingParams);
  R(SelectionRangeParams);
#undef B
#undef R
  regBoth<nixd::OptionType>("OptionType");
  regBoth<nixd::OptionDescription>("OptionDescription");
  regBoth<nixd::OptionField>("OptionField");
  regBoth<nixd::PackageDescription>("PackageDescription");
  regBoth<nixd::ValueMeta>("ValueMeta");
  regBoth<nixd::ValueDescription>("ValueDescription");
  regBoth<nixd::AttrPathInfoResponse>("AttrPathInfoResponse");
  regBoth<nixd::AttrPathCompleteParams>("AttrPathCompleteParams");
  regBoth<nixd::rpc::RegisterBCParams>("RegisterBCParams");
  regBoth<nixd::rpc::ExprValueParams>("ExprValueParams");
  regBoth<nixd::rpc::ExprValueResponse>("ExprValueResponse");
}

// ---- generated documents ------------------------------------------------------
using Vals = std::vector<Value>;
static Vals goods(const Str &T, int Salt);
static Vals goodStruct(const Str &T, int Salt) {
  Object A, Bo;
  int K = Salt;
  if (T == "DocumentChange") {
    Object C{{"kind", "create"}, {"uri", "file:///c"}, {"options", Object{{"overwrite", true}}}};
    Object Rn{{"kind", "rename"}, {"oldUri", "file:///o"}, {"newUri", "file:///n"}, {"annotationId", "a"}};
    Object De{{"kind", "delete"}, {"uri", "file:///d"}, {"options", Object{{"recursive", false}, {"ignoreIfNotExists", true}}}};
    Vals R = goodStruct("TextDocumentEdit", Salt);
    R.push_back(std::move(C));
    R.push_back(std::move(Rn));
    R.push_back(std::move(De));
    return R;
  }
  for (auto &F : Schemas.at(T).F) {
    auto G = goods(F.Type, ++K);
    if (F.Need == '!') A[F.Name] = G[0];
    Bo[F.Name] = G.back();
  }
  return {Value(std::move(Bo)), Value(std::move(A))};
}
static Vals goods(const Str &T, int Salt) {
  auto Bar = T.find('|');
  if (Bar != Str::npos) {
    Vals R = goods(T.substr(0, Bar), Salt);
    for (auto &V : goods(T.substr(Bar + 1), Salt)) R.push_back(V);
    return R;
  }
  if (T[0] == '[') {
    Array A;
    for (auto &V : goods(T.substr(1, T.size() - 2), Salt)) A.push_back(V);
    return {Value(std::move(A)), Value(Array{})};
  }
  if (T[0] == '{') {
    Object A;
    int I = 0;
    for (auto &V : goods(T.substr(1, T.size() - 2), Salt)) A[I++ ? "k2" : "file:///k"] = V;
    return {Value(std::move(A)), Value(Object{})};
  }
  Str N = std::to_string(Salt);
  if (T == "any") return {Object{{"x", Salt}}, Salt};
  if (T == "str" || T == "textdoc") return {"s" + N, ""};
  if (T == "intstr") return {Salt};
  if (T == "kind") return {"markdown", "plaintext"};
  if (T == "bool") return {true, false};
  if (T == "int") return {Salt, 0, -3};
  if (T == "obj") return {Object{{"y", Array{Salt}}}, Object{}};
  if (T == "uri") return {"file:///u" + N, "file:///a/b"};
  return goodStruct(T, Salt);
}
static Vals bads(const Str &T) {
  if (T.find('|') != Str::npos) return {true, Array{}};
  if (T[0] == '[') {
    Vals R{Object{}, "x", 1};
    for (auto &V : bads(T.substr(1, T.size() - 2))) R.push_back(Array{V});
    R.push_back(Array{nullptr});
    return R;
  }
  if (T[0] == '{') {
    Vals R{Array{}, "x", 1};
    for (auto &V : bads(T.substr(1, T.size() - 2))) R.push_back(Object{{"k", V}});
    return R;
  }
  if (T == "any") return {};
  if (T == "str") return {1, true, Array{}, Object{}};
  if (T == "kind") return {1, "html", ""};
  if (T == "bool") return {0, "true", Array{}};
  if (T == "int") return {"1", true, 1.5, Array{}};
  if (T == "obj") return {1, Array{}};
  if (T == "uri") return {1, "a/b", "http://x/y", "", Object{}};
  Vals R{1, "x", Array{}, true};
  for (auto &F : Schemas.at(T).F) {
    if (F.Need == '!') R.push_back(Object{});
    break;
  }
  return R;
}

/// All documents of one structure: all combinations of field values when they are
/// at most Limit, otherwise those that differ from three base documents in at
/// most Dev fields.
static void documents(const Str &Name, std::vector<Field> F, uint64_t Limit, int Dev, std::vector<Str> &Out) {
  std::vector<std::vector<std::optional<Value>>> Opts;
  uint64_t Total = 1;
  int K = 0;
  for (auto &X : F) {
    std::vector<std::optional<Value>> O{std::nullopt, Value(nullptr)};
    for (auto &V : goods(X.Type, ++K * 7)) O.push_back(V);
    for (auto &V : bads(X.Type)) O.push_back(V);
    Total *= O.size();
    Opts.push_back(std::move(O));
  }
  std::set<Str> Seen;
  auto Emit = [&](const std::vector<size_t> &Pick) {
    Object O;
    for (size_t I = 0; I < F.size(); ++I)
      if (auto &V = Opts[I][Pick[I]]) O[F[I].Name] = *V;
    Str S = Name + "|" + show(Value(std::move(O)));
    if (Seen.insert(S).second) Out.push_back(S);
  };
  if (Total <= Limit) {
    std::vector<size_t> P(F.size(), 0);
    while (true) {
      Emit(P);
      size_t I = 0;
      while (I < P.size() && ++P[I] == Opts[I].size()) P[I++] = 0;
      if (I == P.size()) break;
    }
    return;
  }
  std::vector<size_t> Base[3];
  for (size_t I = 0; I < F.size(); ++I) {
    Base[0].push_back(F[I].Need == '!' ? 2 : 0);
    Base[1].push_back(2);
    Base[2].push_back(Opts[I].size() > 3 ? 3 : 2);
  }
  for (auto &Bs : Base) {
    std::vector<size_t> P = Bs;
    std::function<void(size_t, int)> Go = [&](size_t From, int Left) {
      Emit(P);
      if (!Left) return;
      for (size_t I = From; I < P.size(); ++I) {
        size_t Old = P[I];
        for (size_t V = 0; V < Opts[I].size(); ++V)
          if (V != Old) {
            P[I] = V;
            Go(I + 1, Left - 1);
          }
        P[I] = Old;
      }
    };
    Go(0, Dev);
  }
}

static bool subset(const Value &Got, const Value &Want) { return Got == Want; }

static void evalDecode(Ctx &X, const Str &Case) {
  auto Bar = Case.find('|');
  Str N = Case.substr(0, Bar);
  Value V = J(Case.substr(Bar + 1));
  Value W = nullptr;
  int A = want(N, V, W);
  auto &C = Codecs.at(N);
  auto Got = C.Decode(V);
  X.outcome(Str(A == 0 ? "malformed" : A == 1 ? "well-formed" : "open") + (Got ? " accepted" : " rejected"));
  if (A == 0 && Got) return X.fail("accepts-malformed", N + " accepted, giving " + show(*Got));
  if (A == 1 && !Got) return X.fail("rejects-well-formed", N + " rejected");
  if (A == 1 && !subset(*Got, W)) return X.fail("wrong-value", N + " decoded as " + show(*Got) + ", not " + show(W));
  if (!Got || !C.Encode) return;
  if (N == "CompletionItem" && Got->getAsObject()->getString("label")->empty()) return; // no such item
  Value E = C.Encode(V);
  if (N == "CompletionItem")
    if (auto *O = E.getAsObject()) O->erase("score");
  if (N == "CodeAction")
    if (auto *O = E.getAsObject(); O && O->get("data") && O->get("data")->getAsNull()) O->erase("data");
  Value WE = encoded(N, *Got);
  if (!(E == WE)) return X.fail("wrong-encoding", N + " encoded as " + show(E) + ", not " + show(WE));
  X.add(0, 1);
  // round trip
  if (E.getAsNull()) return;
  auto Again = C.Decode(E);
  if (!Again) return X.fail("round-trip", N + ": own encoding rejected: " + show(E));
  if (!(*Again == *Got)) {
    Str S = show(E);
    if (S.find("\"documentation\":null") != Str::npos) return;
    return X.fail("round-trip", N + ": " + show(*Got) + " came back as " + show(*Again));
  }
}

// ---- values that are only sent -------------------------------------------------
static Range rg(int A, int B, int C, int E) { return Range{{A, B}, {C, E}}; }
static Value rgj(int A, int B, int C, int E) {
  return Object{{"start", Object{{"line", A}, {"character", B}}}, {"end", Object{{"line", C}, {"character", E}}}};
}
static URIForFile file(const Str &P) { return URIForFile::canonicalize(P, P); }
/// Every choice of the case is a digit: next(N) takes the next one, modulo N.
struct Pick {
  const Str &S;
  size_t P;
  int next(int N) { return P < S.size() ? (S[P++] - '0') % N : 0; }
};
static const Str Text[] = {"", "t", "\xC3\xA9\n\"\\"};
static void sent(Ctx &X, const Str &Case) {
  auto Bar = Case.find('|');
  Str N = Case.substr(0, Bar);
  Pick P{Case, Bar + 1};
  Value Got = nullptr, W = nullptr, Known = nullptr;
  if (N == "FoldingRange") {
    FoldingRange F;
    F.startLine = P.next(3);
    F.startCharacter = P.next(3);
    F.endLine = P.next(3);
    F.endCharacter = P.next(3);
    Str K[] = {"", "region", "comment"};
    F.kind = K[P.next(3)];
    Got = toJSON(F);
    Object O{{"startLine", F.startLine}, {"startCharacter", F.startCharacter}, {"endLine", F.endLine}, {"endCharacter", F.endCharacter}};
    if (!F.kind.empty()) O["kind"] = F.kind;
    // pinned by the project's tests: zero columns are left out, which means the end of the line
    Object Z = O;
    if (!F.startCharacter) Z.erase("startCharacter");
    if (!F.endCharacter) Z.erase("endCharacter");
    if (!F.startCharacter || !F.endCharacter) Known = std::move(Z);
    W = std::move(O);
  } else if (N == "DocumentSymbol") {
    std::function<std::pair<DocumentSymbol, Value>(int)> Make = [&](int Depth) {
      DocumentSymbol S;
      S.name = Text[P.next(3)];
      S.detail = Text[P.next(3)];
      int K[] = {1, 13, 26};
      S.kind = SymbolKind(K[P.next(3)]);
      S.deprecated = P.next(2);
      S.range = rg(0, 1, 2, 3);
      S.selectionRange = rg(0, 1, 0, 2);
      Object O{{"name", S.name}, {"kind", int(S.kind)}, {"range", rgj(0, 1, 2, 3)}, {"selectionRange", rgj(0, 1, 0, 2)}};
      if (!S.detail.empty()) O["detail"] = S.detail;
      if (S.deprecated) O["deprecated"] = true;
      int Kids = Depth ? P.next(3) : 0;
      Array A;
      for (int I = 0; I < Kids; ++I) {
        auto M = Make(Depth - 1);
        S.children.push_back(M.first);
        A.push_back(M.second);
      }
      if (Kids) O["children"] = std::move(A);
      return std::make_pair(S, Value(std::move(O)));
    };
    auto M = Make(1);
    Got = toJSON(M.first);
    W = M.second;
  } else if (N == "Hover") {
    Hover H;
    H.contents.kind = MarkupKind(P.next(2));
    H.contents.value = Text[P.next(3)];
    if (P.next(2)) H.range = rg(1, 2, 3, 4);
    Got = toJSON(H);
    Object O;
    if (H.contents.value.empty()) O["contents"] = nullptr;
    else O["contents"] = Object{{"kind", H.contents.kind == MarkupKind::Markdown ? "markdown" : "plaintext"}, {"value", H.contents.value}};
    if (H.range) O["range"] = rgj(1, 2, 3, 4);
    W = std::move(O);
  } else if (N == "InlayHint") {
    InlayHint H;
    H.position = {P.next(3), P.next(3)};
    H.label = Text[P.next(3)];
    H.kind = InlayHintKind(1 + P.next(3));
    H.paddingLeft = P.next(2);
    H.paddingRight = P.next(2);
    Got = toJSON(H);
    Object O{{"position", Object{{"line", H.position.line}, {"character", H.position.character}}}, {"label", H.label}, {"paddingLeft", H.paddingLeft}, {"paddingRight", H.paddingRight}};
    if (H.kind != InlayHintKind::Designator) O["kind"] = int(H.kind);
    W = std::move(O);
  } else if (N == "SemanticTokens") {
    SemanticTokens T;
    Array A;
    int K = P.next(3);
    for (int I = 0; I < K; ++I) {
      SemanticToken S;
      S.deltaLine = P.next(3);
      S.deltaStart = P.next(3);
      S.length = P.next(3);
      S.tokenType = P.next(3);
      S.tokenModifiers = P.next(3);
      T.tokens.push_back(S);
      for (unsigned V : {S.deltaLine, S.deltaStart, S.length, S.tokenType, S.tokenModifiers}) A.push_back(V);
    }
    T.resultId = Text[P.next(2)];
    Got = toJSON(T);
    W = Object{{"resultId", T.resultId}, {"data", std::move(A)}};
  } else if (N == "DocumentLink") {
    Str F[] = {"/a", "/a b/\xC3\xA9", "/%41"};
    Str U[] = {"file:///a", "file:///a%20b/%C3%A9", "file:///%2541"};
    int K = P.next(3);
    DocumentLink L{rg(P.next(3), 1, 2, 3), file(F[K])};
    Got = toJSON(L);
    W = Object{{"range", rgj(L.range.start.line, 1, 2, 3)}, {"target", U[K]}};
  } else if (N == "PublishDiagnostics") {
    PublishDiagnosticsParams D;
    D.uri = file("/a");
    Array A;
    int K = P.next(3);
    for (int I = 0; I < K; ++I) {
      Diagnostic G;
      G.range = rg(I, 1, 2, 3);
      G.severity = 1 + P.next(3);
      G.message = Text[P.next(3)];
      G.code = Text[P.next(3)];
      G.source = Text[P.next(2)];
      Object O{{"range", rgj(I, 1, 2, 3)}, {"severity", G.severity}, {"message", G.message}};
      if (!G.code.empty()) O["code"] = G.code;
      if (!G.source.empty()) O["source"] = G.source;
      int Tg = P.next(3);
      if (Tg) {
        G.tags.push_back(DiagnosticTag(Tg));
        O["tags"] = Array{Tg};
      }
      if (P.next(2)) {
        DiagnosticRelatedInformation R;
        R.location.uri = file("/b");
        R.location.range = rg(4, 5, 6, 7);
        R.message = "rel";
        G.relatedInformation = std::vector<DiagnosticRelatedInformation>{R};
        O["relatedInformation"] = Array{Object{{"location", Object{{"uri", "file:///b"}, {"range", rgj(4, 5, 6, 7)}}}, {"message", "rel"}}};
      }
      D.diagnostics.push_back(G);
      A.push_back(std::move(O));
    }
    Object O{{"uri", "file:///a"}, {"diagnostics", std::move(A)}};
    int V = P.next(3);
    if (V) {
      D.version = V - 1;
      O["version"] = V - 1;
    }
    Got = toJSON(D);
    W = std::move(O);
  } else if (N == "DocumentHighlight") {
    DocumentHighlight H;
    H.range = rg(P.next(3), P.next(3), 4, 5);
    H.kind = DocumentHighlightKind(1 + P.next(3));
    Got = toJSON(H);
    W = Object{{"range", rgj(H.range.start.line, H.range.start.character, 4, 5)}, {"kind", int(H.kind)}};
  } else if (N == "Configuration") {
    ConfigurationParams C;
    Array A;
    int K = P.next(3);
    for (int I = 0; I < K; ++I) {
      ConfigurationItem It;
      Object O;
      if (P.next(2)) {
        It.scopeUri = file("/a");
        O["scopeUri"] = "file:///a";
      }
      if (P.next(2)) {
        It.section = "nixd";
        O["section"] = "nixd";
      }
      C.items.push_back(It);
      A.push_back(std::move(O));
    }
    Got = toJSON(C);
    W = Object{{"items", std::move(A)}};
  } else if (N == "ShowDocument") {
    ShowDocumentParams S;
    Object O;
    S.uri = file("/a");
    O["uri"] = "file:///a";
    if (P.next(2)) {
      S.externalUri = "https://x/y";
      O["uri"] = "https://x/y";
    }
    if (int K = P.next(3)) {
      S.external = K - 1;
      O["external"] = bool(K - 1);
    }
    if (int K = P.next(3)) {
      S.takeFocus = K - 1;
      O["takeFocus"] = bool(K - 1);
    }
    if (P.next(2)) {
      S.selection = rg(0, 0, 1, 1);
      O["selection"] = rgj(0, 0, 1, 1);
    }
    Got = toJSON(S);
    W = std::move(O);
  } else if (N == "CompletionList") {
    CompletionList L;
    L.isIncomplete = P.next(2);
    Array A;
    int K = P.next(3);
    for (int I = 0; I < K; ++I) {
      CompletionItem C;
      C.label = Text[1 + P.next(2)];
      C.kind = CompletionItemKind(P.next(3) * 9);
      C.insertText = Text[P.next(3)];
      C.score = 0;
      C.data = Text[P.next(2)];
      Object O{{"label", C.label}, {"score", 0.0}, {"data", C.data}};
      if (int(C.kind)) O["kind"] = int(C.kind);
      if (!C.insertText.empty()) O["insertText"] = C.insertText;
      if (int F = P.next(3)) {
        C.insertTextFormat = InsertTextFormat(F);
        O["insertTextFormat"] = F;
      }
      L.items.push_back(C);
      A.push_back(std::move(O));
    }
    Got = toJSON(L);
    W = Object{{"isIncomplete", L.isIncomplete}, {"items", std::move(A)}};
  } else if (N == "Command") {
    Command C;
    C.title = Text[P.next(3)];
    C.command = Text[P.next(3)];
    Object O{{"title", C.title}, {"command", C.command}};
    if (P.next(2)) {
      C.argument = Object{{"a", 1}};
      O["arguments"] = Array{Object{{"a", 1}}};
    }
    Got = toJSON(C);
    W = std::move(O);
  } else if (N == "ShowMessage") {
    ShowMessageParams S;
    S.type = MessageType(1 + P.next(4));
    S.message = Text[P.next(3)];
    Got = toJSON(S);
    W = Object{{"type", int(S.type)}, {"message", S.message}};
  } else {
    X.fail("check", "unknown case " + N);
    return;
  }
  X.outcome("sent " + N);
  X.add(0, 1);
  if (!(Got == W)) X.fail("wrong-encoding", N + " encoded as " + show(Got) + ", not " + show(W), Known.getAsObject() && Got == Known ? "folding-zero-column" : "");
}

int main(int argc, char **argv) {
  Check C(argv[1], argc - 1, argv + 1);
  define();
  static std::vector<Str> Docs, Odd, Sent;
  for (auto &N : Order) {
    if (!Codecs.count(N)) continue;
    if (N == "DocumentChange") {
      std::vector<Str> L;
      for (auto *V : {"TextDocumentEdit", "CreateFile", "RenameFile", "DeleteFile"}) documents(N, Schemas.at(V).F, C.quick() ? 20000 : 400000, C.quick() ? 3 : 4, L);
      for (auto &S : L) {
        Docs.push_back(S);
        // and with each kind written out
        auto P = S.find("\"kind\":");
        if (P != Str::npos)
          for (auto *K : {"create", "rename", "delete", "move"}) {
            Value V = J(S.substr(S.find('|') + 1));
            (*V.getAsObject())["kind"] = K;
            Docs.push_back(N + "|" + show(V));
          }
      }
      continue;
    }
    documents(N, Schemas.at(N).F, C.quick() ? 20000 : 400000, C.quick() ? 3 : 4, Docs);
    for (auto *V : {"null", "true", "1", "\"x\"", "[]", "{}", "[[]]", "[{}]", "{\"x\":1}"}) Odd.push_back(N + "|" + V);
    for (auto &G : goodStruct(N, 40)) {
      Object O = *G.getAsObject();
      O["unknown"] = Array{1};
      Odd.push_back(N + "|" + show(Value(std::move(O))));
    }
  }
  C.Spaces.push_back(listSpace("documents", "per structure, documents over absent, null, two or more well-typed and up to eight ill-typed values for each field: all combinations if there are at most the stated number, otherwise all that differ in at most three (thorough: four) fields from three base documents", Docs));
  C.Spaces.push_back(listSpace("odd", "values that are no object, empty objects and objects with an unknown field, per structure", Odd));
  auto All = [&](const Str &N, std::vector<int> Dims) {
    std::vector<int> P(Dims.size(), 0);
    while (true) {
      Str S = N + "|";
      for (int I : P) S += char('0' + I);
      Sent.push_back(S);
      size_t I = 0;
      while (I < P.size() && ++P[I] == Dims[I]) P[I++] = 0;
      if (I == P.size()) break;
    }
  };
  All("FoldingRange", {3, 3, 3, 3, 3});
  All("DocumentSymbol", {3, 3, 3, 2, 3, 3, 2, 2, 2, 2, 2, 2, 2});
  All("Hover", {2, 3, 2});
  All("InlayHint", {3, 3, 3, 3, 2, 2});
  All("SemanticTokens", {3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2});
  All("DocumentLink", {3, 3});
  All("PublishDiagnostics", {3, 3, 3, 3, 2, 3, 2, 2, 2, 2, 2, 2, 2, 3});
  All("DocumentHighlight", {3, 3, 3});
  All("Configuration", {3, 2, 2, 2, 2});
  All("ShowDocument", {2, 3, 3, 2});
  All("CompletionList", {2, 3, 2, 3, 3, 2, 3, 2, 2, 2, 2, 2});
  All("Command", {3, 3, 2});
  All("ShowMessage", {4, 3});
  C.Spaces.push_back(listSpace("sent", "all combinations of field values of the values that are only sent", Sent));
  C.Eval = [&](Ctx &X, const Str &Space, const Str &Case) {
    if (Space == "sent") return sent(X, Case);
    evalDecode(X, Case);
  };
  C.Counters = {"encoded"};
  C.Rule = "A document is decoded by the real fromJSON; it must be accepted exactly if the check's own schema of the structure accepts it, hold the schema's value, encode to the schema's encoding, and come back unchanged.";
  C.Assumptions = {"Where the protocol leaves open whether null or an ill-typed optional field is accepted, both are allowed. Numbers stay within 32 bits."};
  return C.run();
}
