"""Which contracts are discharged for which property."""
import re

from checks import ispec

HANDLERS = [
    'version', 'mode', 'setPosition', 'setSourceFile', 'rawtextOffset',
    'rawtextColumn', 'rawtextBeginScope', 'beginScope', 'endScope',
    'setLocal', 'setGlobal', 'beginI18nContext', 'endI18nContext',
    'insertText', 'insertI18nText', 'insertStructure', 'insertI18nStructure',
    'condition', 'optTag', 'loop', 'onError', 'insertTranslation',
    'i18nVariable', 'evaluateCode', 'defineMacro', 'useMacro', 'extendMacro',
    'fillSlot', 'defineSlot', 'startTag', 'startEndTag', '<attrAction>',
    'attrAction', 'insertHTMLStructure', 'insertXMLStructure', 'interpret',
    '__call__']

WRAP = 'wrapping'
TAGS = ['startTag', 'startEndTag']
OFF = ['rawtextBeginScope', 'beginScope', 'setLocal', 'setGlobal',
       'insertText', 'insertI18nText', 'insertStructure',
       'insertI18nStructure', 'condition', 'optTag', 'loop', 'onError',
       'startTag', 'startEndTag', 'attrAction']


def own(*without):
    """Obligations about what a handler does, frame conditions excepted."""
    def keep(name):
        return not ispec.FRAME.search(name) and \
            not any(re.search(w, name) for w in without)
    return keep


def about(rx):
    return re.compile(rx).search


def either(*keeps):
    return lambda name: any(k(name) for k in keeps)


def every(name):
    return True


#: property: [(contracts, obligations that are about it, tables)]
SPECS = {
    'C01': [(['insertText', 'insertI18nText'], own(), None)],
    'C02': [(['<attrAction>'] + TAGS, own(WRAP), None)],
    'C04': [(['onError'], every, None),
            (HANDLERS + ['stream_write'],
             about('after an exception|scopes left open|no scope of|'
                   'swallowed|another exception|goes on|column of'),
             None)],
    'C05': [(HANDLERS, about('scope|context'), None),
            (['interpret', '__call__'], own(), None)],
    'C06': [(HANDLERS, about('unchanged input'), None)],
    'C07': [(['condition', 'loop', 'optTag', 'interpret'], own(), None)],
    'C08': [(['rawtextOffset', 'rawtextColumn', 'rawtextBeginScope',
              'beginScope', 'endScope', 'setPosition'],
             either(own(), about('column|scopes')), None)],
    'C09': [(['defineSlot', 'fillSlot'], own(), None),
            (['useMacro', 'extendMacro'], about('entry'), None),
            (HANDLERS, about('macro nesting|macroStack'), None)],
    'C10': [(['useMacro', 'extendMacro', 'defineMacro', 'version', 'mode'],
             own(), None),
            (HANDLERS, about('macro nesting|macroStack|use status'), None)],
    'C12': [(['insertStructure', 'insertI18nStructure',
              'insertHTMLStructure', 'insertXMLStructure'], own(), None),
            (HANDLERS, about('document type'), None)],
    'C14': [(TAGS, own(WRAP), None)],
    'C16': [(['insertTranslation', 'i18nVariable', 'beginI18nContext',
              'endI18nContext'], own(), None),
            (HANDLERS, about('i18nStack|translation units|translation '
                             'context|context is|domain'), None)],
    'C17': [(['setPosition', 'setSourceFile'], own('pending'), None),
            (HANDLERS, about('told|source file|position|remembered'), None)],
    'C18': [(['_annotated_stream_write', 'formatSourceAnnotation',
              'setSourceFile'], own(), None)],
    'C19': [(OFF, own(WRAP), (0,)),
            (['useMacro', 'extendMacro', 'defineSlot'],
             about(r'\(METAL off\): (?!.*is as before)'), None),
            (['interpret'], own(), None)],
    'C20': [(TAGS, about(WRAP), None)],
    'C22': [(['setLocal', 'setGlobal', 'condition', 'loop', 'optTag',
              'interpret'], own(), None)],
}


#: property: (parts of the contract of an element, obligations about it)
ELEMENT = {
    'C01': (('structure', 'arguments'),
            about('^(content (has|is emitted|stands|encloses content of)|'
                  'kind of content)')),
    'C02': (('attributes', 'replacements'), None),
    'C04': (('structure', 'arguments', 'tags', 'scopes'),
            about('^(onError|tal:on-error)')),
    'C05': (('scopes', 'state'), about('^(?!definitions are).*(scope|context)')),
    'C07': (('structure', 'arguments'),
            about('^(condition|loop|optTag) (is emitted|encloses|has|'
                  'without)|every program|no program')),
    'C09': (('arguments', 'state'), about('filler|[Ss]lot has its name')),
    'C10': (('structure', 'arguments', 'state'),
            about('^((use|define)Macro (has|is emitted|stands|encloses '
                  'content of)|macro is|a macro is|extendMacro or|useMacro '
                  'or)')),
    'C11': (('faults', 'state', 'patterns'),
            about('rejected|generator state|a repetition')),
    'C12': (('structure', 'arguments', 'replacements'),
            about('^(content (has|is emitted|stands)|kind of content|'
                  'attributes of a replaced)')),
    'C13': (('implied',), None),
    'C14': (('arguments', 'tags', 'attributes'),
            about('^(start tag has|optTag knows|there is|attributes are)')),
    'C15': (('structure', 'arguments', 'attributes', 'replacements'),
            about('^(definitions are|attribute (has|is recorded))')),
    'C16': (('contexts', 'arguments', 'state', 'scopes'),
            about('context|insertTranslation|i18nVariable|translation')),
    'C17': (('positions',), None),
    'C22': (('structure', 'arguments', 'tags', 'scopes'),
            about('^(?!.*(scope|context))|definitions')),
}


ERRORS = about('error|refused|fail')

#: property: [(module, parts, obligations about it)]
HELPERS = {
    'C01': [('helpsym', ['substitution'], every),
            ('initsym', ['interpreter'], about('default|stream')),
            ('engsym', ['engine values'], about('evaluateText'))],
    'C02': [('helpsym', ['replace'], every),
            ('helpsym', ['attributes', 'messages'],
             about('key|value|entry|collected')),
            ('initsym', ['interpreter'], about('default'))],
    'C04': [('initsym', ['buffer', 'error info'], every)],
    'C05': [('helpsym', ['stacks'], every),
            ('initsym', ['generator', 'interpreter'],
             about('scope|context|nothing is open|level')),
            ('engsym', ['engine scopes'], every)],
    'C07': [('parsesym', ['start tags', 'empty elements'],
             about('directive|program text|left out')),
            ('engsym', ['engine repetition'], every),
            ('engsym', ['engine values'], about('Boolean|Sequence'))],
    'C08': [('helpsym', ['emitting', 'line ends', 'white space'], every),
            ('initsym', ['code', 'result'], every)],
    'C09': [('initsym', ['interpreter'], about('macro nesting'))],
    'C10': [('initsym', ['generator', 'interpreter'],
             about('version|document type|macro nesting|use status|'
                   'stackLimit')),
            ('engsym', ['engine scopes'], every)],
    'C11': [('helpsym', ['defines', 'attributes', 'messages', 'expressions',
                         'substitution'], ERRORS),
            ('parsesym', ['start tags', 'end tags', 'empty elements',
                          'enclosed elements', 'document'],
             about('with content is rejected|TAL error|have no content|'
                   'pass unchanged|does not fail|directive')),
            ('nssym', ['attributes (HTML)'], about('rejected|error')),
            ('initsym', ['errors'], every)],
    'C12': [('helpsym', ['substitution'], every),
            ('initsym', ['inserting'], every),
            ('initsym', ['interpreter', 'generator'],
             about('document type|strictinsert'))],
    'C13': [('parsesym', ['start tags', 'empty elements', 'document',
                          'implied ends', 'enclosed elements', 'end tags',
                          'making room'],
             about('^(?!.*(program text|left out|directive))')),
            ('helpsym', ['line ends', 'white space'], every),
            ('initsym', ['HTML parser', 'errors'], every)],
    'C14': [('nssym', ['names (HTML)', 'names (XML)', 'bindings',
                       'end of bindings', 'attributes (HTML)',
                       'attributes (XML)', 'declarations', 'declaring',
                       'starts (XML)', 'ends (XML)'], every),
            ('parsesym', ['start tags', 'empty elements', 'document',
                          'implied ends', 'enclosed elements', 'end tags'],
             about('binding|namespace')),
            ('initsym', ['HTML parser', 'HTML text', 'XML parser',
                         'XML document', 'XML text',
                         'XML end of bindings'], every),
            ('initsym', ['interpreter'], about('shown'))],
    'C15': [('helpsym', ['defines', 'attributes'], every)],
    'C16': [('initsym', ['buffer'], every),
            ('initsym', ['generator', 'interpreter'],
             about('context|domain|translation unit'))],
    'C17': [('initsym', ['generator', 'interpreter'], about('source file')),
            ('initsym', ['XML place'], every)],
    'C18': [('initsym', ['interpreter'],
             about('[Aa]nnotation|output'))],
    'C19': [('initsym', ['interpreter'],
             about('TAL switch|TAL is|metal|shown|debug|handled|output'))],
    'C20': [('initsym', ['interpreter'], about('wrap|column'))],
    'C21': [('initsym', ['extraction', 'catalog'], every),
            ('engsym', ['engine repetition'], every)],
    'C22': [('helpsym', ['defines', 'stacks'], every)],
}


def never(name):
    return False


def helpers(c):
    """The contracts of the functions an element is compiled with.

    What is about other properties is discharged as well, but a failure only
    leaves this property undecided."""
    from checks import engsym, helpsym, initsym, nssym, parsesym
    mods = {'engsym': engsym, 'helpsym': helpsym, 'initsym': initsym,
            'nssym': nssym, 'parsesym': parsesym}
    done = set()
    for mod, parts, keep in HELPERS.get(c.pid, ()):
        mods[mod].run(c, parts, keep)
        done.update(parts)
    if c.pid in ELEMENT:
        helpsym.run(c, [p for p in helpsym.PARTS if p not in done], never)


def run(c):
    helpers(c)
    if c.pid in ELEMENT:
        from checks import gensym
        gensym.run(c, *ELEMENT[c.pid])
    for names, keep, tables in SPECS.get(c.pid, ()):
        ispec.run(c, names, keep, tables)
    if c.pid == 'C21':
        from checks import catsym
        catsym.run(c)
    if c.pid == 'C08':
        from checks import optsym
        optsym.run(c, ['optimize', 'optimizeCommonTriple',
                       'optimizeStartTag'])
    if c.pid == 'C03':
        from checks import optsym
        optsym.run(c, ['optimizeStartTag'])
