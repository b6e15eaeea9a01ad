import json,subprocess
def h(s): 
    return subprocess.run(['git','-C','/repo','log','--format=%h %s','d0e1893..HEAD'],capture_output=True,text=True).stdout
log={l.split(' ',1)[1]:l.split(' ',1)[0] for l in h('').splitlines()}
def f(prop,sub,what):
    m=[v for k,v in log.items() if sub in k]; assert len(m)==1,(sub,m)
    return f"fixed: property={prop} {m[0]} {what}"
d={"findings":[
 {"id":"KF-DEEP","properties":["C01"],"what":"20000 nested block quotes ('> ' repeated) overflow an 8 MiB stack: block parsing recurses once per nesting level",
  "repeat":[["3e20",20000],["61",1]]}],
 "fixed":[
 f("C09","two colons in a row","'a :: b' contained a symbol without a name"),
 f("C04","keep the caret of a bracket","'[^\\n](u)' lost its caret"),
 f("C04","keep line boundaries when trailing","'> a{.c}{a=\"x\\n> b': text of the next line started with the container prefix; text was duplicated"),
 f("C01","more than 65535 hash","65536 '#' and a space panicked"),
 f("C24","report errors when flushing","the command line tool exited 0 although writing its output failed"),
 f("C20","do not write a br tag inside","'![a\\\\\\nb](u)' wrote <br> inside the alt attribute"),
 f("C21","separate the classes of task lists","'{.a}' before a task list gave class=\"atask-list\""),
 f("C20","escape div classes and symbols","'::: a\"b' and ':a<b:' were written unescaped"),
 f("C18","apply block attributes only","'{#x}\\n# a\\n## b' put the attributes on both headings"),
 f("C09","recognise an escape directly after","'`a`\\\\*b*' lost the backslash and emphasised b"),
 f("C09","ignore escapes on every line","'`x\\nx\\\\`' did not end at the second backtick"),
 f("C11","remove the indentation of a div","code on the first line of an indented div lost more indentation than its fence has"),
 f("C11","remove the indentation of every line of a table caption","continuation lines of a caption kept white space of their container"),
 f("C09","recognise math after an escaped","'\\\\\\\\$`x`' was not math"),
 f("C17","keep the text before an escaped line break","a quoted attribute value lost the part of a line before a backslash at its end"),
 f("C17","honour escapes on every line of a quoted","backslash escapes on the second and later lines of a quoted attribute value were kept literally"),
 f("C19","do not write an attribute of an HTML element twice","'[a](u){href=v}' wrote href twice"),
 f("C08","keep the white space of blank lines","white space of blank lines of a code block in a container was lost"),
 f("C12","read ambiguous list numbers as letters","'c. d. e.' as items was a roman list starting at 100"),
 f("C13","recognise table rows by a second pipe","'|a\\\\\\\\|' was no row, and a line with a single pipe made the row above a header"),
 f("C03","keep the text of a verbatim that is not closed","'|a`|' dropped the backtick and what follows it in the row"),
 f("C25","take link destinations and labels only","'> []([](\\n> ))' had the prefix of the quote in the destination; attributes within a destination over lines were duplicated"),
 f("C25","split the text of an empty attribute set","'> []{\\n> }' had the prefix of the quote in its text"),
 f("C25","continue a link definition by lines indented more","'- x\\n\\n  [a]: u\\n  [b]: v' was a single definition"),
 f("C25","keep the relative indentation of blocks","'[^x]: x\\n\\n  - a\\n\\n    - b' lost the nesting of the lists"),
 f("C25","leave the line ending of blank lines out","a blank line ending with a carriage return lost it in an indented code block, except in containers"),
 f("C27","ignore unattached attributes when placing","an attribute set without a block at the end of a footnote moved the backlink out of its last paragraph"),
 f("C28","remove the marker of a heading's last line","'#\\n#' kept the second marker as text, unlike '#\\n#\\n'"),
 f("C14","collapse white space before a line break in heading","'# a \\nb' got the identifier a--b instead of a-b"),
 f("C22","indent the elements within the section","elements within the section of footnotes were not indented by their depth: 'a[^b]', indented by tabs"),
 f("C01","parse inline elements of any number of lines","'*a' followed by 20000 further lines overflowed an 8 MiB stack"),
 f("C15","smart punctuation in headings","'# it\\'s x', referenced by its text, was not found: quotes, dashes, ellipses and symbols were left out of the text of the heading"),
]}
json.dump(d,open('/verif/known_findings.json','w'),indent=1); print(*d['fixed'],sep='\n')
