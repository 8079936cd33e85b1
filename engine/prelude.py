"""Sources of small stand-ins for the external libraries treeno uses, interpreted like the analysed modules.

They state the documented behaviour of antlr4's parse-tree classes, io.StringIO and nltk's Tree.
"""

STRINGIO = '''
class StringIO:
    def __init__(self, initial=""):
        self._parts = [initial] if initial else []
    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected")
        self._parts.append(s)
        return len(s)
    def writelines(self, lines):
        for s in lines:
            self.write(s)
    def getvalue(self):
        return "".join(self._parts)
    def read(self):
        return "".join(self._parts)
    def seek(self, n):
        pass
    def close(self):
        pass
    def flush(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, a, b, c):
        return None
'''

NLTK = '''
class Tree:
    def __init__(self, node, children=None):
        if children is None:
            raise TypeError("Expected a node value and child list")
        if isinstance(children, str):
            raise TypeError("Tree() argument 2 should be a list, not a string")
        self._children = list(children)
        self._label = node
    def label(self):
        return self._label
    def set_label(self, l):
        self._label = l
    def __iter__(self):
        return iter(self._children)
    def __len__(self):
        return len(self._children)
    def __getitem__(self, i):
        return self._children[i]
    def append(self, x):
        self._children.append(x)
    @classmethod
    def fromstring(cls, s):
        return cls("fromstring", [s])
    def pretty_print(self, sentence=None, highlight=(), stream=None, **kwargs):
        if stream is not None:
            stream.write("<pretty tree>")
        __verif_record__("tree", self)
    def pformat(self, **kwargs):
        __verif_record__("tree", self)
        return "<pretty tree>"
    def draw(self):
        __verif_record__("tree", self)
'''

ANTLR = '''
class Token:
    EOF = -1
    INVALID_TYPE = 0
    EPSILON = -2
    DEFAULT_CHANNEL = 0
    HIDDEN_CHANNEL = 1
    def __init__(self, type, text, index=0):
        self.type = type
        self.text = text
        self.tokenIndex = index
        self.line = 1
        self.column = 0
        self.channel = 0
        self.start = 0
        self.stop = 0

INVALID_INTERVAL = (-1, -2)

class Tree: pass
class SyntaxTree(Tree): pass
class ParseTree(SyntaxTree): pass
class RuleNode(ParseTree): pass
class TerminalNode(ParseTree): pass
class ErrorNode(TerminalNode): pass

class ParseTreeVisitor:
    def visit(self, tree):
        return tree.accept(self)
    def visitChildren(self, node):
        result = self.defaultResult()
        n = node.getChildCount()
        for i in range(n):
            if not self.shouldVisitNextChild(node, result):
                return result
            c = node.getChild(i)
            childResult = c.accept(self)
            result = self.aggregateResult(result, childResult)
        return result
    def visitTerminal(self, node):
        return self.defaultResult()
    def visitErrorNode(self, node):
        return self.defaultResult()
    def defaultResult(self):
        return None
    def aggregateResult(self, aggregate, nextResult):
        return nextResult
    def shouldVisitNextChild(self, node, currentResult):
        return True

class ParseTreeListener:
    def visitTerminal(self, node): pass
    def visitErrorNode(self, node): pass
    def enterEveryRule(self, ctx): pass
    def exitEveryRule(self, ctx): pass

class ParseTreeWalker:
    pass

class TerminalNodeImpl(TerminalNode):
    def __init__(self, symbol):
        self.parentCtx = None
        self.symbol = symbol
    def getChild(self, i):
        return None
    def getSymbol(self):
        return self.symbol
    def getParent(self):
        return self.parentCtx
    def getPayload(self):
        return self.symbol
    def getChildCount(self):
        return 0
    def accept(self, visitor):
        return visitor.visitTerminal(self)
    def getText(self):
        return self.symbol.text
    def __str__(self):
        if self.symbol.type == Token.EOF:
            return "<EOF>"
        return self.symbol.text

class ErrorNodeImpl(TerminalNodeImpl, ErrorNode):
    def accept(self, visitor):
        return visitor.visitErrorNode(self)

class RuleContext(RuleNode):
    EMPTY = None
    def __init__(self, parent=None, invokingState=-1):
        self.parentCtx = parent
        self.invokingState = invokingState
    def isEmpty(self):
        return self.invokingState == -1
    def getRuleContext(self):
        return self
    def getPayload(self):
        return self
    def getText(self):
        if self.getChildCount() == 0:
            return ""
        return "".join([child.getText() for child in self.getChildren()])
    def getRuleIndex(self):
        return -1
    def getAltNumber(self):
        return 0
    def accept(self, visitor):
        return visitor.visitChildren(self)

class ParserRuleContext(RuleContext):
    def __init__(self, parent=None, invokingStateNumber=None):
        super().__init__(parent, invokingStateNumber)
        self.children = None
        self.start = None
        self.stop = None
        self.exception = None
    def copyFrom(self, ctx):
        self.parentCtx = ctx.parentCtx
        self.invokingState = ctx.invokingState
        self.children = None
        self.start = ctx.start
        self.stop = ctx.stop
    def enterRule(self, listener): pass
    def exitRule(self, listener): pass
    def addChild(self, child):
        if self.children is None:
            self.children = []
        self.children.append(child)
        return child
    def getChild(self, i, ttype=None):
        __verif_inside__(self)
        if ttype is None:
            return self.children[i] if len(self.children) > i else None
        for child in self.getChildren():
            if not isinstance(child, ttype):
                continue
            if i == 0:
                return child
            i -= 1
        return None
    def getChildren(self, predicate=None):
        __verif_inside__(self)
        if self.children is not None:
            for child in self.children:
                if predicate is not None and not predicate(child):
                    continue
                yield child
    def getToken(self, ttype, i):
        for child in self.getChildren():
            if not isinstance(child, TerminalNode):
                continue
            if child.symbol.type != ttype:
                continue
            if i == 0:
                return child
            i -= 1
        return None
    def getTokens(self, ttype):
        return [c for c in self.getChildren() if isinstance(c, TerminalNode) and c.symbol.type == ttype]
    def getTypedRuleContext(self, ctxType, i):
        return self.getChild(i, ctxType)
    def getTypedRuleContexts(self, ctxType):
        return [c for c in self.getChildren() if isinstance(c, ctxType)]
    def getChildCount(self):
        __verif_inside__(self)
        return len(self.children) if self.children else 0

class ErrorListener:
    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e): pass
    def reportAmbiguity(self, *args): pass
    def reportAttemptingFullContext(self, *args): pass
    def reportContextSensitivity(self, *args): pass

class ConsoleErrorListener(ErrorListener):
    INSTANCE = None
    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
        print("line", line, column, msg)

ConsoleErrorListener.INSTANCE = ConsoleErrorListener()

class RecognitionException(Exception): pass
class NoViableAltException(RecognitionException): pass
class InputMismatchException(RecognitionException): pass
class LexerNoViableAltException(RecognitionException): pass
class FailedPredicateException(RecognitionException): pass
class ParseCancellationException(Exception): pass
class IllegalStateException(Exception): pass

class ErrorStrategy: pass
class DefaultErrorStrategy(ErrorStrategy):
    def sync(self, recognizer): pass
    def recover(self, recognizer, e): pass
    def recoverInline(self, recognizer): pass
    def reportError(self, recognizer, e): pass
    def reportMatch(self, recognizer): pass
class BailErrorStrategy(DefaultErrorStrategy):
    def recover(self, recognizer, e):
        raise ParseCancellationException(e)
    def recoverInline(self, recognizer):
        raise ParseCancellationException(recognizer)

class Recognizer:
    def __init__(self):
        self._listeners = [ConsoleErrorListener.INSTANCE]
        self._interp = None
        self._stateNumber = -1
    def addErrorListener(self, listener):
        self._listeners.append(listener)
    def removeErrorListener(self, listener):
        self._listeners.remove(listener)
    def removeErrorListeners(self):
        self._listeners = []
    def checkVersion(self, toolVersion): pass

class InputStream:
    def __init__(self, data):
        self.data = data
        self.name = "<empty>"
        self.strdata = data
    def __str__(self):
        return self.data

class Lexer(Recognizer):
    def __init__(self, input, output=None):
        super().__init__()
        self._input = input
        self._output = output
        self.inputStream = input
    def skip(self): pass

class BufferedTokenStream:
    def __init__(self, tokenSource):
        self.tokenSource = tokenSource
        self.index = 0
        self.tokens = []
        self.fetchedEOF = False
        self._rest = []
    def fill(self):
        __verif_record__("fill", self)
    def LT(self, i):
        # what follows the phrase which the parser has read
        return self._rest[i - 1] if i <= len(self._rest) else Token(-1, "<EOF>")
    def LA(self, i):
        return self.LT(i).type
    def seek(self, i): pass
    def consume(self):
        if not self._rest:
            raise IllegalStateException("cannot consume EOF")
        self.index += 1
        self._rest = self._rest[1:]
class CommonTokenStream(BufferedTokenStream):
    pass
TokenStream = BufferedTokenStream

class Parser(Recognizer):
    def __init__(self, input, output=None):
        super().__init__()
        self._input = input
        self._output = output
        self._errHandler = DefaultErrorStrategy()
        self._syntaxErrors = 0
        self.buildParseTrees = True
        self._ctx = None
    def getNumberOfSyntaxErrors(self):
        return self._syntaxErrors
    def getTokenStream(self):
        return self._input
    def getInputStream(self):
        return self._input
    def getCurrentToken(self):
        return self._input.LT(1)
    def setErrorHandler(self, handler):
        self._errHandler = handler
    def isExpectedToken(self, symbol):
        return True
    def notifyErrorListeners(self, msg, offendingToken=None, e=None):
        if offendingToken is None:
            offendingToken = self.getCurrentToken()
        self._syntaxErrors += 1
        for listener in self._listeners:
            listener.syntaxError(self, offendingToken, offendingToken.line, offendingToken.column, msg, e)
    def consume(self):
        o = self.getCurrentToken()
        if o.type != Token.EOF:
            self._input.consume()
        if self.buildParseTrees:
            # behind the outermost rule there is no context a token could be added to
            raise AttributeError("'NoneType' object has no attribute 'addTokenNode'")
        return o
    def match(self, ttype):
        t = self.getCurrentToken()
        if t.type == ttype:
            return self.consume()
        self._verif_error()
        return t
    def _verif_error(self):
        """A syntax error: the error strategy reports and recovers, or gives up."""
        if isinstance(self._errHandler, BailErrorStrategy):
            raise ParseCancellationException("bail")
        self.notifyErrorListeners("mismatched input")

class Trees:
    @classmethod
    def getNodeText(cls, t, ruleNames=None, recog=None):
        if recog is not None:
            ruleNames = recog.ruleNames
        if ruleNames is not None:
            if isinstance(t, RuleNode):
                return ruleNames[t.getRuleIndex()]
            if isinstance(t, TerminalNode):
                if t.symbol is not None:
                    return t.symbol.text
        payload = t.getPayload()
        if isinstance(payload, Token):
            return payload.text
        return str(payload)
    @classmethod
    def getChildren(cls, t):
        return [t.getChild(i) for i in range(0, t.getChildCount())]
    @classmethod
    def toStringTree(cls, t, ruleNames=None, recog=None):
        __verif_record__("toStringTree", t)
        return "(tree)"
'''
