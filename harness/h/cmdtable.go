package h

// cmdSpec is what Vim's documentation says of a command: its full name, the
// minimum length of an abbreviation, how its argument is read, and what it
// takes. Names and lengths were compared with fullcommand() of Vim 9.1, flags
// with the errors Vim gives for a bang, an argument, or none.
type cmdSpec struct {
	name  string
	min   int
	kind  string
	flags string
}

var cmdTable = []cmdSpec{
	{"append", 1, "append", "BANG|RANGE|TRLBAR"},
	{"abbreviate", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"abclear", 3, "common", "EXTRA|TRLBAR"},
	{"aboveleft", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"all", 2, "common", "BANG|RANGE|TRLBAR"},
	{"amenu", 2, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"anoremenu", 2, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"args", 2, "common", "BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"argadd", 4, "common", "BANG|NEEDARG|RANGE|FILES|TRLBAR"},
	{"argdelete", 4, "common", "BANG|RANGE|FILES|TRLBAR"},
	{"argedit", 4, "common", "BANG|NEEDARG|RANGE|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"argdo", 5, "common", "BANG|NEEDARG|EXTRA|NOTRLCOM"},
	{"argglobal", 4, "common", "BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"arglocal", 4, "common", "BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"argument", 4, "common", "BANG|RANGE|EXTRA|EDITCMD|ARGOPT|TRLBAR"},
	{"ascii", 2, "common", "TRLBAR"},
	{"autocmd", 2, "common", "BANG|EXTRA|NOTRLCOM|USECTRLV"},
	{"augroup", 3, "common", "BANG|WORD1|TRLBAR"},
	{"aunmenu", 3, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"buffer", 1, "common", "BANG|RANGE|EXTRA|TRLBAR"},
	{"bNext", 2, "common", "BANG|RANGE|TRLBAR"},
	{"ball", 2, "common", "RANGE|TRLBAR"},
	{"badd", 3, "common", "NEEDARG|FILE1|EDITCMD|TRLBAR"},
	{"bdelete", 2, "common", "BANG|RANGE|EXTRA|TRLBAR"},
	{"behave", 2, "common", "NEEDARG|WORD1|TRLBAR"},
	{"belowright", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"bfirst", 2, "common", "BANG|RANGE|TRLBAR"},
	{"blast", 2, "common", "BANG|RANGE|TRLBAR"},
	{"bmodified", 2, "common", "BANG|RANGE|TRLBAR"},
	{"bnext", 2, "common", "BANG|RANGE|TRLBAR"},
	{"botright", 2, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"bprevious", 2, "common", "BANG|RANGE|TRLBAR"},
	{"brewind", 2, "common", "BANG|RANGE|TRLBAR"},
	{"break", 4, "break", "TRLBAR"},
	{"breakadd", 6, "common", "EXTRA|TRLBAR"},
	{"breakdel", 6, "common", "EXTRA|TRLBAR"},
	{"breaklist", 6, "common", "EXTRA|TRLBAR"},
	{"browse", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"bufdo", 5, "common", "BANG|NEEDARG|EXTRA|NOTRLCOM"},
	{"buffers", 7, "common", "BANG|TRLBAR"},
	{"bunload", 3, "common", "BANG|RANGE|EXTRA|TRLBAR"},
	{"bwipeout", 2, "common", "BANG|RANGE|EXTRA|TRLBAR"},
	{"change", 1, "append", "BANG|RANGE|TRLBAR"},
	{"cNext", 2, "common", "RANGE|TRLBAR|BANG"},
	{"cNfile", 3, "common", "RANGE|TRLBAR|BANG"},
	{"cabbrev", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"cabclear", 4, "common", "EXTRA|TRLBAR"},
	{"caddbuffer", 3, "common", "RANGE|WORD1|TRLBAR"},
	{"caddexpr", 5, "common", "NEEDARG|WORD1|NOTRLCOM|TRLBAR"},
	{"caddfile", 5, "common", "TRLBAR|FILE1"},
	{"call", 3, "call", "RANGE|NEEDARG|EXTRA|NOTRLCOM"},
	{"catch", 3, "catch", "EXTRA"},
	{"cbuffer", 2, "common", "BANG|RANGE|WORD1|TRLBAR"},
	{"cc", 2, "common", "RANGE|TRLBAR|BANG"},
	{"cclose", 3, "common", "RANGE|TRLBAR"},
	{"cd", 2, "common", "BANG|FILE1|TRLBAR"},
	{"center", 2, "common", "TRLBAR|RANGE|EXTRA"},
	{"cexpr", 3, "common", "NEEDARG|WORD1|NOTRLCOM|TRLBAR|BANG"},
	{"cfile", 2, "common", "TRLBAR|FILE1|BANG"},
	{"cfirst", 4, "common", "RANGE|TRLBAR|BANG"},
	{"cgetbuffer", 5, "common", "RANGE|WORD1|TRLBAR"},
	{"cgetexpr", 5, "common", "NEEDARG|WORD1|NOTRLCOM|TRLBAR"},
	{"cgetfile", 2, "common", "TRLBAR|FILE1"},
	{"changes", 7, "common", "TRLBAR"},
	{"chdir", 3, "common", "BANG|FILE1|TRLBAR"},
	{"checkpath", 3, "common", "TRLBAR|BANG"},
	{"checktime", 6, "common", "RANGE|EXTRA|TRLBAR"},
	{"clist", 2, "common", "BANG|EXTRA|TRLBAR"},
	{"clast", 3, "common", "RANGE|TRLBAR|BANG"},
	{"close", 3, "common", "BANG|TRLBAR"},
	{"cmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"cmapclear", 5, "common", "EXTRA|TRLBAR"},
	{"cmenu", 3, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"cnext", 2, "common", "RANGE|TRLBAR|BANG"},
	{"cnewer", 4, "common", "RANGE|TRLBAR"},
	{"cnfile", 3, "common", "RANGE|TRLBAR|BANG"},
	{"cnoremap", 3, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"cnoreabbrev", 6, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"cnoremenu", 7, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"copy", 2, "common", "RANGE|EXTRA|TRLBAR"},
	{"colder", 3, "common", "RANGE|TRLBAR"},
	{"colorscheme", 4, "common", "WORD1|TRLBAR"},
	{"command", 3, "common", "EXTRA|BANG|NOTRLCOM|USECTRLV"},
	{"comclear", 4, "common", "TRLBAR"},
	{"compiler", 4, "common", "BANG|TRLBAR|WORD1"},
	{"continue", 3, "continue", "TRLBAR"},
	{"confirm", 4, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"copen", 4, "common", "RANGE|TRLBAR"},
	{"cprevious", 2, "common", "RANGE|TRLBAR|BANG"},
	{"cpfile", 3, "common", "RANGE|TRLBAR|BANG"},
	{"cquit", 2, "common", "TRLBAR|BANG"},
	{"crewind", 2, "common", "RANGE|TRLBAR|BANG"},
	{"cscope", 2, "common", "EXTRA|NOTRLCOM|XFILE"},
	{"cstag", 3, "common", "BANG|TRLBAR|WORD1"},
	{"cunmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"cunabbrev", 4, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"cunmenu", 5, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"cwindow", 2, "common", "RANGE|TRLBAR"},
	{"delete", 1, "common", "RANGE|TRLBAR"},
	{"delmarks", 4, "common", "BANG|EXTRA|TRLBAR"},
	{"debug", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"debuggreedy", 6, "common", "RANGE|TRLBAR"},
	{"delcommand", 4, "common", "NEEDARG|WORD1|TRLBAR"},
	{"delfunction", 4, "delfunction", "BANG|NEEDARG|WORD1"},
	{"diffupdate", 3, "common", "BANG|TRLBAR"},
	{"diffget", 5, "common", "RANGE|EXTRA|TRLBAR"},
	{"diffoff", 5, "common", "BANG|TRLBAR"},
	{"diffpatch", 5, "common", "EXTRA|FILE1|TRLBAR"},
	{"diffput", 6, "common", "RANGE|EXTRA|TRLBAR"},
	{"diffsplit", 5, "common", "EXTRA|FILE1|TRLBAR"},
	{"diffthis", 5, "common", "TRLBAR"},
	{"digraphs", 3, "common", "EXTRA|TRLBAR"},
	{"display", 2, "common", "EXTRA|NOTRLCOM|TRLBAR"},
	{"djump", 2, "common", "BANG|RANGE|EXTRA"},
	{"dlist", 2, "common", "BANG|RANGE|EXTRA"},
	{"doautocmd", 2, "common", "EXTRA|TRLBAR"},
	{"doautoall", 7, "common", "EXTRA|TRLBAR"},
	{"drop", 2, "common", "FILES|EDITCMD|NEEDARG|ARGOPT|TRLBAR"},
	{"dsearch", 2, "common", "BANG|RANGE|EXTRA"},
	{"dsplit", 3, "common", "BANG|RANGE|EXTRA"},
	{"edit", 1, "common", "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"earlier", 2, "common", "TRLBAR|EXTRA"},
	{"echo", 2, "echo", "EXTRA|NOTRLCOM"},
	{"echoerr", 5, "echoerr", "EXTRA|NOTRLCOM"},
	{"echohl", 5, "echohl", "EXTRA|TRLBAR"},
	{"echomsg", 5, "echomsg", "EXTRA|NOTRLCOM"},
	{"echon", 5, "echon", "EXTRA|NOTRLCOM"},
	{"else", 2, "else", "TRLBAR"},
	{"elseif", 5, "elseif", "EXTRA|NOTRLCOM"},
	{"emenu", 2, "common", "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|RANGE"},
	{"endif", 2, "endif", "TRLBAR"},
	{"endfor", 5, "endfor", "TRLBAR"},
	{"endfunction", 4, "endfunction", "TRLBAR"},
	{"endtry", 4, "endtry", "TRLBAR"},
	{"endwhile", 4, "endwhile", "TRLBAR"},
	{"enew", 3, "common", "BANG|TRLBAR"},
	{"eval", 2, "eval", "EXTRA|NOTRLCOM"},
	{"ex", 2, "common", "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"execute", 3, "execute", "EXTRA|NOTRLCOM"},
	{"exit", 3, "common", "RANGE|BANG|FILE1|ARGOPT|TRLBAR"},
	{"exusage", 3, "common", "TRLBAR"},
	{"file", 1, "common", "RANGE|BANG|FILE1|TRLBAR"},
	{"files", 5, "common", "BANG|TRLBAR"},
	{"filetype", 5, "common", "EXTRA|TRLBAR"},
	{"find", 3, "common", "RANGE|BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"finally", 4, "finally", "TRLBAR"},
	{"finish", 4, "finish", "TRLBAR"},
	{"first", 3, "common", "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"fixdel", 3, "common", "TRLBAR"},
	{"fold", 2, "common", "RANGE|TRLBAR"},
	{"foldclose", 5, "common", "RANGE|BANG|TRLBAR"},
	{"folddoopen", 5, "common", "RANGE|NEEDARG|EXTRA|NOTRLCOM"},
	{"folddoclosed", 7, "common", "RANGE|NEEDARG|EXTRA|NOTRLCOM"},
	{"foldopen", 5, "common", "RANGE|BANG|TRLBAR"},
	{"for", 3, "for", "EXTRA|NOTRLCOM"},
	{"function", 2, "function", "EXTRA|BANG"},
	{"global", 1, "common", "RANGE|BANG|EXTRA"},
	{"goto", 2, "common", "RANGE|TRLBAR"},
	{"grep", 2, "common", "RANGE|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"grepadd", 5, "common", "RANGE|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"gui", 2, "common", "BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"gvim", 2, "common", "BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"hardcopy", 2, "common", "RANGE|EXTRA|TRLBAR|BANG"},
	{"help", 1, "common", "BANG|EXTRA|NOTRLCOM"},
	{"helpfind", 5, "common", "EXTRA|NOTRLCOM"},
	{"helpgrep", 5, "common", "EXTRA|NOTRLCOM|NEEDARG"},
	{"helptags", 5, "common", "NEEDARG|FILES|TRLBAR"},
	{"highlight", 2, "common", "BANG|EXTRA|TRLBAR"},
	{"hide", 3, "common", "BANG|RANGE|COUNT|EXTRA|TRLBAR"},
	{"history", 3, "common", "EXTRA|TRLBAR"},
	{"insert", 1, "insert", "BANG|RANGE|TRLBAR"},
	{"iabbrev", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"iabclear", 4, "common", "EXTRA|TRLBAR"},
	{"if", 2, "if", "EXTRA|NOTRLCOM"},
	{"ijump", 2, "common", "BANG|RANGE|EXTRA"},
	{"ilist", 2, "common", "BANG|RANGE|EXTRA"},
	{"imap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"imapclear", 5, "common", "EXTRA|TRLBAR"},
	{"imenu", 3, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"inoremap", 3, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"inoreabbrev", 6, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"inoremenu", 7, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"intro", 3, "common", "TRLBAR"},
	{"isearch", 2, "common", "BANG|RANGE|EXTRA"},
	{"isplit", 3, "common", "BANG|RANGE|EXTRA"},
	{"iunmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"iunabbrev", 4, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"iunmenu", 5, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"join", 1, "common", "BANG|RANGE|TRLBAR"},
	{"jumps", 2, "common", "TRLBAR"},
	{"k", 1, "common", "RANGE|WORD1|TRLBAR"},
	{"keepalt", 5, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"keepmarks", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"keepjumps", 5, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"keeppatterns", 5, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"lNext", 2, "common", "RANGE|TRLBAR|BANG"},
	{"lNfile", 3, "common", "RANGE|TRLBAR|BANG"},
	{"list", 1, "common", "RANGE|TRLBAR"},
	{"laddexpr", 3, "common", "NEEDARG|WORD1|NOTRLCOM|TRLBAR"},
	{"laddbuffer", 5, "common", "RANGE|WORD1|TRLBAR"},
	{"laddfile", 5, "common", "TRLBAR|FILE1"},
	{"last", 2, "common", "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"language", 3, "common", "EXTRA|TRLBAR"},
	{"later", 3, "common", "TRLBAR|EXTRA"},
	{"lbuffer", 2, "common", "BANG|RANGE|WORD1|TRLBAR"},
	{"lcd", 2, "common", "BANG|FILE1|TRLBAR"},
	{"lchdir", 3, "common", "BANG|FILE1|TRLBAR"},
	{"lclose", 3, "common", "RANGE|TRLBAR"},
	{"lcscope", 3, "common", "EXTRA|NOTRLCOM|XFILE"},
	{"left", 2, "common", "TRLBAR|RANGE|EXTRA"},
	{"leftabove", 5, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"let", 3, "let", "EXTRA|NOTRLCOM"},
	{"const", 4, "const", "EXTRA|NOTRLCOM"},
	{"lexpr", 3, "common", "NEEDARG|WORD1|NOTRLCOM|TRLBAR|BANG"},
	{"lfile", 2, "common", "TRLBAR|FILE1|BANG"},
	{"lfirst", 4, "common", "RANGE|TRLBAR|BANG"},
	{"lgetbuffer", 5, "common", "RANGE|WORD1|TRLBAR"},
	{"lgetexpr", 5, "common", "NEEDARG|WORD1|NOTRLCOM|TRLBAR"},
	{"lgetfile", 2, "common", "TRLBAR|FILE1"},
	{"lgrep", 3, "common", "RANGE|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"lgrepadd", 6, "common", "RANGE|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"lhelpgrep", 2, "common", "EXTRA|NOTRLCOM|NEEDARG"},
	{"ll", 2, "common", "RANGE|TRLBAR|BANG"},
	{"llast", 3, "common", "RANGE|TRLBAR|BANG"},
	{"lmake", 4, "common", "BANG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"lmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"lmapclear", 5, "common", "EXTRA|TRLBAR"},
	{"lnext", 3, "common", "RANGE|TRLBAR|BANG"},
	{"lnewer", 4, "common", "RANGE|TRLBAR"},
	{"lnfile", 3, "common", "RANGE|TRLBAR|BANG"},
	{"lnoremap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"loadkeymap", 5, "loadkeymap", ""},
	{"loadview", 2, "common", "FILE1|TRLBAR"},
	{"lockmarks", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"lockvar", 5, "lockvar", "BANG|EXTRA|NEEDARG"},
	{"lolder", 3, "common", "RANGE|TRLBAR"},
	{"lopen", 3, "common", "RANGE|TRLBAR"},
	{"lprevious", 2, "common", "RANGE|TRLBAR|BANG"},
	{"lpfile", 3, "common", "RANGE|TRLBAR|BANG"},
	{"lrewind", 2, "common", "RANGE|TRLBAR|BANG"},
	{"ls", 2, "common", "BANG|TRLBAR"},
	{"ltag", 2, "common", "TRLBAR|BANG|WORD1"},
	{"lunmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"lua", 3, "lua", "RANGE|EXTRA|NEEDARG"},
	{"luado", 4, "common", "RANGE|EXTRA|NEEDARG"},
	{"luafile", 4, "common", "RANGE|FILE1|NEEDARG"},
	{"lvimgrep", 2, "common", "RANGE|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"lvimgrepadd", 9, "common", "RANGE|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"lwindow", 2, "common", "RANGE|TRLBAR"},
	{"move", 1, "common", "RANGE|EXTRA|TRLBAR"},
	{"mark", 2, "common", "RANGE|WORD1|TRLBAR"},
	{"make", 3, "common", "BANG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"map", 3, "common", "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"mapclear", 4, "common", "EXTRA|BANG|TRLBAR"},
	{"marks", 5, "common", "EXTRA|TRLBAR"},
	{"match", 3, "common", "RANGE|EXTRA"},
	{"menu", 2, "common", "RANGE|BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"menutranslate", 5, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"messages", 3, "common", "TRLBAR"},
	{"mkexrc", 2, "common", "BANG|FILE1|TRLBAR"},
	{"mksession", 3, "common", "BANG|FILE1|TRLBAR"},
	{"mkspell", 4, "common", "BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"mkvimrc", 3, "common", "BANG|FILE1|TRLBAR"},
	{"mkview", 5, "common", "BANG|FILE1|TRLBAR"},
	{"mode", 3, "common", "WORD1|TRLBAR"},
	{"mzscheme", 2, "mzscheme", "RANGE|EXTRA|NEEDARG"},
	{"mzfile", 3, "common", "RANGE|FILE1|NEEDARG"},
	{"nbclose", 3, "common", "TRLBAR"},
	{"nbkey", 2, "common", "EXTRA|NEEDARG"},
	{"nbstart", 3, "common", "WORD1|TRLBAR"},
	{"next", 1, "common", "RANGE|BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"new", 3, "common", "BANG|FILE1|RANGE|EDITCMD|ARGOPT|TRLBAR"},
	{"nmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"nmapclear", 5, "common", "EXTRA|TRLBAR"},
	{"nmenu", 3, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"nnoremap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"nnoremenu", 7, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"noautocmd", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"noremap", 2, "common", "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"nohlsearch", 3, "common", "TRLBAR"},
	{"noreabbrev", 5, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"noremenu", 6, "common", "RANGE|BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"normal", 4, "common", "RANGE|BANG|EXTRA|NEEDARG|NOTRLCOM|USECTRLV"},
	{"number", 2, "common", "RANGE|TRLBAR"},
	{"nunmap", 3, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"nunmenu", 5, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"oldfiles", 2, "common", "BANG|TRLBAR"},
	{"open", 1, "common", "RANGE|BANG|EXTRA"},
	{"omap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"omapclear", 5, "common", "EXTRA|TRLBAR"},
	{"omenu", 3, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"only", 2, "common", "BANG|TRLBAR"},
	{"onoremap", 3, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"onoremenu", 7, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"options", 3, "common", "TRLBAR"},
	{"ounmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"ounmenu", 5, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"ownsyntax", 2, "common", "EXTRA|NOTRLCOM"},
	{"pclose", 2, "common", "BANG|TRLBAR"},
	{"pedit", 3, "common", "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"perl", 2, "perl", "RANGE|EXTRA|NEEDARG"},
	{"print", 1, "common", "RANGE|TRLBAR"},
	{"profdel", 5, "common", "EXTRA|TRLBAR"},
	{"profile", 4, "common", "BANG|EXTRA|TRLBAR"},
	{"promptfind", 3, "common", "EXTRA|NOTRLCOM"},
	{"promptrepl", 7, "common", "EXTRA|NOTRLCOM"},
	{"perldo", 5, "common", "RANGE|EXTRA|NEEDARG"},
	{"pop", 2, "common", "RANGE|BANG|TRLBAR"},
	{"popup", 4, "common", "NEEDARG|EXTRA|BANG|TRLBAR|NOTRLCOM"},
	{"ppop", 2, "common", "RANGE|BANG|TRLBAR"},
	{"preserve", 3, "common", "TRLBAR"},
	{"previous", 4, "common", "EXTRA|RANGE|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"psearch", 2, "common", "BANG|RANGE|EXTRA"},
	{"ptag", 2, "common", "RANGE|BANG|WORD1|TRLBAR"},
	{"ptNext", 3, "common", "RANGE|BANG|TRLBAR"},
	{"ptfirst", 3, "common", "RANGE|BANG|TRLBAR"},
	{"ptjump", 3, "common", "BANG|TRLBAR|WORD1"},
	{"ptlast", 3, "common", "BANG|TRLBAR"},
	{"ptnext", 3, "common", "RANGE|BANG|TRLBAR"},
	{"ptprevious", 3, "common", "RANGE|BANG|TRLBAR"},
	{"ptrewind", 3, "common", "RANGE|BANG|TRLBAR"},
	{"ptselect", 3, "common", "BANG|TRLBAR|WORD1"},
	{"put", 2, "common", "RANGE|BANG|TRLBAR"},
	{"pwd", 2, "common", "TRLBAR"},
	{"py3", 3, "python3", "RANGE|EXTRA|NEEDARG"},
	{"python3", 7, "python3", "RANGE|EXTRA|NEEDARG"},
	{"py3file", 4, "common", "RANGE|FILE1|NEEDARG"},
	{"python", 2, "python", "RANGE|EXTRA|NEEDARG"},
	{"pyfile", 3, "common", "RANGE|FILE1|NEEDARG"},
	{"pydo", 3, "common", "RANGE|EXTRA|NEEDARG"},
	{"py3do", 4, "common", "RANGE|EXTRA|NEEDARG"},
	{"quit", 1, "common", "BANG|TRLBAR"},
	{"quitall", 5, "common", "BANG|TRLBAR"},
	{"qall", 2, "common", "BANG|TRLBAR"},
	{"read", 1, "common", "BANG|RANGE|FILE1|ARGOPT|TRLBAR"},
	{"recover", 3, "common", "BANG|FILE1|TRLBAR"},
	{"redo", 3, "common", "TRLBAR"},
	{"redir", 4, "common", "BANG|FILES|TRLBAR"},
	{"redraw", 4, "common", "BANG|TRLBAR"},
	{"redrawstatus", 7, "common", "BANG|TRLBAR"},
	{"registers", 3, "common", "EXTRA|NOTRLCOM|TRLBAR"},
	{"resize", 3, "common", "RANGE|TRLBAR|WORD1"},
	{"retab", 3, "common", "TRLBAR|RANGE|BANG|WORD1"},
	{"return", 4, "return", "EXTRA|NOTRLCOM"},
	{"rewind", 3, "common", "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"right", 2, "common", "TRLBAR|RANGE|EXTRA"},
	{"rightbelow", 6, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"ruby", 3, "ruby", "RANGE|EXTRA|NEEDARG"},
	{"rubydo", 5, "common", "RANGE|EXTRA|NEEDARG"},
	{"rubyfile", 5, "common", "RANGE|FILE1|NEEDARG"},
	{"rundo", 4, "common", "NEEDARG|FILE1"},
	{"runtime", 2, "common", "BANG|NEEDARG|FILES|TRLBAR"},
	{"rviminfo", 2, "common", "BANG|FILE1|TRLBAR"},
	{"substitute", 1, "common", "RANGE|EXTRA"},
	{"sNext", 2, "common", "EXTRA|RANGE|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"sandbox", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"sargument", 2, "common", "BANG|RANGE|EXTRA|EDITCMD|ARGOPT|TRLBAR"},
	{"sall", 3, "common", "BANG|RANGE|TRLBAR"},
	{"saveas", 3, "common", "BANG|FILE1|ARGOPT|TRLBAR"},
	{"sbuffer", 2, "common", "BANG|RANGE|EXTRA|TRLBAR"},
	{"sbNext", 3, "common", "RANGE|TRLBAR"},
	{"sball", 3, "common", "RANGE|TRLBAR"},
	{"sbfirst", 3, "common", "TRLBAR"},
	{"sblast", 3, "common", "TRLBAR"},
	{"sbmodified", 3, "common", "RANGE|TRLBAR"},
	{"sbnext", 3, "common", "RANGE|TRLBAR"},
	{"sbprevious", 3, "common", "RANGE|TRLBAR"},
	{"sbrewind", 3, "common", "TRLBAR"},
	{"scriptnames", 3, "common", "TRLBAR"},
	{"scriptencoding", 7, "common", "WORD1|TRLBAR"},
	{"scscope", 3, "common", "EXTRA|NOTRLCOM"},
	{"set", 2, "common", "TRLBAR|EXTRA"},
	{"setfiletype", 4, "common", "TRLBAR|EXTRA|NEEDARG"},
	{"setglobal", 4, "common", "TRLBAR|EXTRA"},
	{"setlocal", 4, "common", "TRLBAR|EXTRA"},
	{"sfind", 2, "common", "BANG|FILE1|RANGE|EDITCMD|ARGOPT|TRLBAR"},
	{"sfirst", 4, "common", "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"shell", 2, "common", "TRLBAR"},
	{"simalt", 3, "common", "NEEDARG|WORD1|TRLBAR"},
	{"sign", 3, "common", "NEEDARG|RANGE|EXTRA"},
	{"silent", 3, "common", "NEEDARG|EXTRA|BANG|NOTRLCOM"},
	{"sleep", 2, "common", "RANGE|EXTRA|TRLBAR"},
	{"slast", 3, "common", "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"smagic", 2, "common", "RANGE|EXTRA"},
	{"smap", 4, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"smapclear", 5, "common", "EXTRA|TRLBAR"},
	{"smenu", 3, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"snext", 2, "common", "RANGE|BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"sniff", 3, "common", "EXTRA|TRLBAR"},
	{"snomagic", 3, "common", "RANGE|EXTRA"},
	{"snoremap", 4, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"snoremenu", 7, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"sort", 3, "common", "RANGE|BANG|EXTRA|NOTRLCOM"},
	{"source", 2, "common", "BANG|FILE1|TRLBAR"},
	{"spelldump", 6, "common", "BANG|TRLBAR"},
	{"spellgood", 3, "common", "BANG|RANGE|NEEDARG|EXTRA|TRLBAR"},
	{"spellinfo", 6, "common", "TRLBAR"},
	{"spellrepall", 6, "common", "TRLBAR"},
	{"spellundo", 6, "common", "BANG|RANGE|NEEDARG|EXTRA|TRLBAR"},
	{"spellwrong", 6, "common", "BANG|RANGE|NEEDARG|EXTRA|TRLBAR"},
	{"split", 2, "common", "BANG|FILE1|RANGE|EDITCMD|ARGOPT|TRLBAR"},
	{"sprevious", 3, "common", "EXTRA|RANGE|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"srewind", 3, "common", "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"stop", 2, "common", "TRLBAR|BANG"},
	{"stag", 3, "common", "RANGE|BANG|WORD1|TRLBAR"},
	{"startinsert", 4, "common", "BANG|TRLBAR"},
	{"startgreplace", 6, "common", "BANG|TRLBAR"},
	{"startreplace", 6, "common", "BANG|TRLBAR"},
	{"stopinsert", 5, "common", "BANG|TRLBAR"},
	{"stjump", 3, "common", "BANG|TRLBAR|WORD1"},
	{"stselect", 3, "common", "BANG|TRLBAR|WORD1"},
	{"sunhide", 3, "common", "RANGE|TRLBAR"},
	{"sunmap", 4, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"sunmenu", 5, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"suspend", 3, "common", "TRLBAR|BANG"},
	{"sview", 2, "common", "BANG|FILE1|RANGE|EDITCMD|ARGOPT|TRLBAR"},
	{"swapname", 2, "common", "TRLBAR"},
	{"syntax", 2, "syntax", "EXTRA|NOTRLCOM"},
	{"syntime", 5, "common", "NEEDARG|WORD1|TRLBAR"},
	{"syncbind", 4, "common", "TRLBAR"},
	{"t", 1, "common", "RANGE|EXTRA|TRLBAR"},
	{"tNext", 2, "common", "RANGE|BANG|TRLBAR"},
	{"tabNext", 4, "common", "RANGE|TRLBAR"},
	{"tabclose", 4, "common", "RANGE|BANG|TRLBAR"},
	{"tabdo", 4, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"tabedit", 4, "common", "BANG|FILE1|RANGE|EDITCMD|ARGOPT|TRLBAR"},
	{"tabfind", 4, "common", "BANG|FILE1|RANGE|EDITCMD|ARGOPT|NEEDARG|TRLBAR"},
	{"tabfirst", 6, "common", "TRLBAR"},
	{"tablast", 4, "common", "TRLBAR"},
	{"tabmove", 4, "common", "RANGE|EXTRA|TRLBAR"},
	{"tabnew", 6, "common", "BANG|FILE1|RANGE|EDITCMD|ARGOPT|TRLBAR"},
	{"tabnext", 4, "common", "RANGE|TRLBAR"},
	{"tabonly", 4, "common", "BANG|TRLBAR"},
	{"tabprevious", 4, "common", "RANGE|TRLBAR"},
	{"tabrewind", 4, "common", "TRLBAR"},
	{"tabs", 4, "common", "TRLBAR"},
	{"tab", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"tag", 2, "common", "RANGE|BANG|WORD1|TRLBAR"},
	{"tags", 4, "common", "TRLBAR"},
	{"tcl", 3, "tcl", "RANGE|EXTRA|NEEDARG"},
	{"tcldo", 4, "common", "RANGE|EXTRA|NEEDARG"},
	{"tclfile", 4, "common", "RANGE|FILE1|NEEDARG"},
	{"tearoff", 2, "common", "NEEDARG|EXTRA|TRLBAR|NOTRLCOM"},
	{"tfirst", 2, "common", "RANGE|BANG|TRLBAR"},
	{"throw", 2, "throw", "EXTRA|NEEDARG"},
	{"tjump", 2, "common", "BANG|TRLBAR|WORD1"},
	{"tlast", 2, "common", "BANG|TRLBAR"},
	{"tmenu", 2, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"tnext", 2, "common", "RANGE|BANG|TRLBAR"},
	{"topleft", 2, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"tprevious", 2, "common", "RANGE|BANG|TRLBAR"},
	{"trewind", 2, "common", "RANGE|BANG|TRLBAR"},
	{"try", 3, "try", "TRLBAR"},
	{"tselect", 2, "common", "BANG|TRLBAR|WORD1"},
	{"tunmenu", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"undo", 1, "common", "RANGE|TRLBAR"},
	{"undojoin", 5, "common", "TRLBAR"},
	{"undolist", 5, "common", "TRLBAR"},
	{"unabbreviate", 3, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"unhide", 3, "common", "RANGE|TRLBAR"},
	{"unlet", 3, "unlet", "BANG|EXTRA|NEEDARG"},
	{"unlockvar", 4, "unlockvar", "BANG|EXTRA|NEEDARG"},
	{"unmap", 3, "common", "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"unmenu", 4, "common", "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"unsilent", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"update", 2, "common", "RANGE|BANG|FILE1|ARGOPT|TRLBAR"},
	{"vglobal", 1, "common", "RANGE|EXTRA"},
	{"version", 2, "common", "EXTRA|TRLBAR"},
	{"verbose", 4, "common", "NEEDARG|RANGE|EXTRA|NOTRLCOM"},
	{"vertical", 4, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"vimgrep", 3, "common", "RANGE|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"vimgrepadd", 8, "common", "RANGE|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"visual", 2, "common", "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"viusage", 3, "common", "TRLBAR"},
	{"view", 3, "common", "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"vmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"vmapclear", 5, "common", "EXTRA|TRLBAR"},
	{"vmenu", 3, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"vnew", 3, "common", "BANG|FILE1|RANGE|EDITCMD|ARGOPT|TRLBAR"},
	{"vnoremap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"vnoremenu", 7, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"vsplit", 2, "common", "BANG|FILE1|RANGE|EDITCMD|ARGOPT|TRLBAR"},
	{"vunmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"vunmenu", 5, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"windo", 5, "common", "BANG|NEEDARG|EXTRA|NOTRLCOM"},
	{"write", 1, "common", "RANGE|BANG|FILE1|ARGOPT|TRLBAR"},
	{"wNext", 2, "common", "RANGE|BANG|FILE1|ARGOPT|TRLBAR"},
	{"wall", 2, "common", "BANG|TRLBAR"},
	{"while", 2, "while", "EXTRA|NOTRLCOM"},
	{"winsize", 2, "common", "EXTRA|NEEDARG|TRLBAR"},
	{"wincmd", 4, "wincmd", "NEEDARG|WORD1|RANGE"},
	{"winpos", 4, "common", "EXTRA|TRLBAR"},
	{"wnext", 2, "common", "RANGE|BANG|FILE1|ARGOPT|TRLBAR"},
	{"wprevious", 2, "common", "RANGE|BANG|FILE1|ARGOPT|TRLBAR"},
	{"wq", 2, "common", "RANGE|BANG|FILE1|ARGOPT|TRLBAR"},
	{"wqall", 3, "common", "BANG|FILE1|ARGOPT|TRLBAR"},
	{"wsverb", 2, "common", "EXTRA|NEEDARG"},
	{"wundo", 2, "common", "BANG|NEEDARG|FILE1"},
	{"wviminfo", 2, "common", "BANG|FILE1|TRLBAR"},
	{"xit", 1, "common", "RANGE|BANG|FILE1|ARGOPT|TRLBAR"},
	{"xall", 2, "common", "BANG|TRLBAR"},
	{"xmapclear", 5, "common", "EXTRA|TRLBAR"},
	{"xmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"xmenu", 3, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"xnoremap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"xnoremenu", 7, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"xunmap", 2, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"xunmenu", 5, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"yank", 1, "common", "RANGE|TRLBAR"},
	{"z", 1, "common", "RANGE|EXTRA|TRLBAR"},
	{"!", 1, "common", "RANGE|BANG|FILES"},
	{"#", 1, "common", "RANGE|TRLBAR"},
	{"&", 1, "common", "RANGE|EXTRA"},
	{"*", 1, "common", "RANGE|EXTRA|TRLBAR"},
	{"<", 1, "common", "RANGE|TRLBAR"},
	{"=", 1, "common", "RANGE|TRLBAR"},
	{">", 1, "common", "RANGE|TRLBAR"},
	{"@", 1, "common", "RANGE|EXTRA|TRLBAR"},
	{"Next", 1, "common", "EXTRA|RANGE|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"Print", 1, "common", "RANGE|TRLBAR"},
	{"X", 1, "common", "TRLBAR"},
	{"~", 1, "common", "RANGE|EXTRA"},
	{"cbottom", 3, "common", "TRLBAR"},
	{"cdo", 3, "common", "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE"},
	{"cfdo", 3, "common", "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE"},
	{"chistory", 3, "common", "TRLBAR"},
	{"clearjumps", 3, "common", "TRLBAR"},
	{"filter", 4, "common", "BANG|NEEDARG|EXTRA|NOTRLCOM"},
	{"helpclose", 5, "common", "RANGE|TRLBAR"},
	{"lbottom", 3, "common", "TRLBAR"},
	{"ldo", 2, "common", "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE"},
	{"lfdo", 3, "common", "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE"},
	{"lhistory", 3, "common", "TRLBAR"},
	{"llist", 3, "common", "BANG|EXTRA|TRLBAR"},
	{"noswapfile", 3, "common", "NEEDARG|EXTRA|NOTRLCOM"},
	{"packadd", 2, "common", "BANG|FILE1|NEEDARG|TRLBAR"},
	{"packloadall", 5, "common", "BANG|TRLBAR"},
	{"smile", 3, "common", "TRLBAR"},
	{"pyx", 3, "python", "RANGE|EXTRA|NEEDARG"},
	{"pyxdo", 4, "common", "RANGE|EXTRA|NEEDARG"},
	{"pythonx", 7, "python", "RANGE|EXTRA|NEEDARG"},
	{"pyxfile", 4, "common", "RANGE|FILE1|NEEDARG"},
	{"terminal", 3, "common", "RANGE|BANG|FILES"},
	{"tmap", 3, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"tmapclear", 5, "common", "EXTRA|TRLBAR"},
	{"tnoremap", 3, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"tunmap", 5, "common", "EXTRA|TRLBAR|NOTRLCOM|USECTRLV"},
	{"cabove", 4, "common", "RANGE|TRLBAR"},
	{"cafter", 3, "common", "RANGE|TRLBAR"},
	{"cbefore", 3, "common", "RANGE|TRLBAR"},
	{"cbelow", 4, "common", "RANGE|TRLBAR"},
	{"labove", 3, "common", "RANGE|TRLBAR"},
	{"lafter", 3, "common", "RANGE|TRLBAR"},
	{"lbefore", 3, "common", "RANGE|TRLBAR"},
	{"lbelow", 4, "common", "RANGE|TRLBAR"},
	{"redrawtabline", 7, "common", "TRLBAR"},
	{"scriptversion", 7, "common", "WORD1|TRLBAR"},
	{"tcd", 2, "common", "BANG|FILE1|TRLBAR"},
	{"tchdir", 3, "common", "BANG|FILE1|TRLBAR"},
	{"tlmenu", 3, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM"},
	{"tlnoremenu", 3, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM"},
	{"tlunmenu", 3, "common", "RANGE|EXTRA|TRLBAR|NOTRLCOM"},
	{"xrestore", 2, "common", "EXTRA|TRLBAR"},
	{"def", 3, "common", "EXTRA|BANG"},
	{"disassemble", 4, "common", "EXTRA|NEEDARG|TRLBAR"},
	{"enddef", 4, "common", "TRLBAR"},
	{"export", 3, "common", "EXTRA|NOTRLCOM"},
	{"import", 3, "common", "EXTRA|NOTRLCOM"},
	{"spellrare", 7, "common", "BANG|RANGE|NEEDARG|EXTRA|TRLBAR"},
	{"vim9script", 4, "common", ""},
}
