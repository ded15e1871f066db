// C26: the tic-tac-toe board and the turn rule of the game.
#include "vc.h"
#define private public
#include "samples/tictactoe/game.h"
#undef private
using namespace abc::samples;
abc::samples::vmem_bundle* abc::samples::player_agent::_vmem = nullptr;
static u8 cell(u32 s, int k) { return (u8)((s >> (2 * k)) & 3); }
static bool line3(u32 s, u8 p, int a, int b, int c) { return (cell(s, a) == p) & (cell(s, b) == p) & (cell(s, c) == p); }
static bool wins(u32 s, u8 p) {
	return line3(s, p, 0, 1, 2) | line3(s, p, 3, 4, 5) | line3(s, p, 6, 7, 8) | line3(s, p, 0, 3, 6) | line3(s, p, 1, 4, 7) | line3(s, p, 2, 5, 8) | line3(s, p, 0, 4, 8) | line3(s, p, 2, 4, 6);
}
static int count(u32 s, u8 p) { return (cell(s, 0) == p) + (cell(s, 1) == p) + (cell(s, 2) == p) + (cell(s, 3) == p) + (cell(s, 4) == p) + (cell(s, 5) == p) + (cell(s, 6) == p) + (cell(s, 7) == p) + (cell(s, 8) == p); }
static int taken(u32 s) { return 9 - count(s, 0); }
// x moves first and the players take turns; the game is over exactly when the last mover has a line or the board is full
static bool well_formed(const board& b) {
	u32 s = b._board_state; int n = taken(s); int x = count(s, 2), o = count(s, 3);
	bool xl = wins(s, 2), ol = wins(s, 3);
	return (s >> 18 == 0) & (count(s, 1) == 0) & (b._move_count == n) & (x == o || x == o + 1) & (b._current_player_id == 2 || b._current_player_id == 3)
		& (b._is_game_over ? ((xl || ol || n == 9) & !(xl && ol) & (b._winner == (xl ? 2 : ol ? 3 : 0)) & (b._current_player_id == (x == o ? 3 : 2)) & (!xl || x == o + 1) & (!ol || x == o))
			: (!xl & !ol & (n < 9) & (b._winner == 0) & (b._current_player_id == (x == o ? 2 : 3))));
}
static board any_board() {
	board b; b._board_state = vc_u32("cells"); b._move_count = vc_u8("count"); b._current_player_id = vc_u8("player"); b._winner = vc_u8("winner"); b._is_game_over = vc_bool("over");
	VC_ASSUME(well_formed(b)); return b;
}
static bool same(const board& a, const board& b) { return (a._board_state == b._board_state) & (a._move_count == b._move_count) & (a._current_player_id == b._current_player_id) & (a._winner == b._winner) & (a._is_game_over == b._is_game_over); }
// the referee: decides for the player who has just moved
static void referee(const board& b, bool& over, u8& winner) {
	bool w = wins(b._board_state, b._current_player_id), d = b._move_count == 9;
	over = b._is_game_over | w | d; winner = w ? b._current_player_id : d ? 0 : b._winner;
}
#ifndef VC_NATIVE
VC_CONTRACT(ttt_winner, "^abc::samples::board::check_winner\\(\\)");
extern "C" bool vccontract__ttt_winner(board* b) {
	u32 s = b->_board_state; u8 p = b->_current_player_id; vc_assert((p == 2) | (p == 3), "requires a player");
	auto w = [&]() -> bool { return wins(s, p); }; bool r = vc_eval(w); u8 r8 = r; u8 d = b->_move_count == 9; u8 over = b->_is_game_over;
	b->_winner = (u8)(r8 * p + (1 - r8) * (1 - d) * b->_winner); b->_is_game_over = (over | r8 | d) != 0;
	return b->_is_game_over;
}
#endif
VC_PROOF(ttt_winner__all) {
	board b; b._board_state = vc_u32("cells"); b._move_count = vc_u8("count"); b._current_player_id = 2 + (vc_u8("player") & 1); b._winner = vc_u8("winner"); b._is_game_over = vc_bool("over");
	bool over; u8 winner; board p = b; referee(b, over, winner);
	bool r = b.check_winner();
	VC_CHECK("the referee's verdict", r == over && b._is_game_over == over && b._winner == winner);
	VC_CHECK("the referee touches nothing else", b._board_state == p._board_state && b._move_count == p._move_count && b._current_player_id == p._current_player_id);
}
VC_PROOF(ttt_reset) { board b; VC_CHECK("a new board is empty and x is to move", well_formed(b) && b._board_state == 0 && !b._is_game_over && b._current_player_id == 2);
	board c = any_board(); c.reset(); VC_CHECK("reset", same(b, c)); }
static move cell_move(int k) { move m; m.row = k / 3; m.col = k % 3; return m; }
static void accept(int k) {
	board b = any_board(), p = b; move m = cell_move(k);
	VC_CHECK("the cell reads as what was put there", b.get_move(m) == cell(b._board_state, k) && b.has_move(2, m) == (cell(b._board_state, k) == 2) && b.has_move(3, m) == (cell(b._board_state, k) == 3));
	bool ok = b.accept_move(m);
	VC_CHECK("accepted exactly when the game goes on and the cell is empty", ok == (!p._is_game_over && cell(p._board_state, k) == 0));
	if (!ok) { VC_CHECK("a refused move changes nothing", same(b, p)); return; }
	VC_CHECK("the move is the mover's mark on that cell", b._board_state == (p._board_state | ((u32)p._current_player_id << (2 * k))) && b.move_count() == (unsigned)p._move_count + 1);
	VC_CHECK("a win exactly when the mover has three in a row", (b.winner() == p._current_player_id) == wins(b._board_state, p._current_player_id) && (b.winner() == 0 || b.winner() == p._current_player_id));
	VC_CHECK("over exactly on a win or a full board", b.is_game_over() == (wins(b._board_state, p._current_player_id) || taken(b._board_state) == 9));
	VC_CHECK("the other player moves next", b.is_game_over() || b.current_player_id() == (p._current_player_id == 2 ? 3 : 2));
	VC_CHECK("the board stays well-formed", well_formed(b));
	bool un = b.undo_move(m);
	VC_CHECK("undoing the move restores the position", un && same(b, p));
}
VC_PROOF(ttt_accept_0) { accept(0); } VC_PROOF(ttt_accept_1) { accept(1); } VC_PROOF(ttt_accept_2) { accept(2); }
VC_PROOF(ttt_accept_3) { accept(3); } VC_PROOF(ttt_accept_4) { accept(4); } VC_PROOF(ttt_accept_5) { accept(5); }
VC_PROOF(ttt_accept_6) { accept(6); } VC_PROOF(ttt_accept_7) { accept(7); } VC_PROOF(ttt_accept_8) { accept(8); }
VC_PROOF(ttt_outside) {
	board b = any_board(), p = b; move m; m.row = (int)vc_u32("row"); m.col = (int)vc_u32("col"); vc_assume(m.row < 0 || m.row > 2 || m.col < 0 || m.col > 2);
	VC_CHECK("a cell outside of the board is refused", !b.accept_move(m) && same(b, p) && !b.undo_move(m) && same(b, p));
}
VC_PROOF(ttt_opponent) { VC_CHECK("opponents", board::opponent(2) == 3 && board::opponent(3) == 2); }
// ---------------------------------------------------------------- the game: turns
struct ttt_calls { u32 accepts, learns, moves; bool ok, over; u8 next; move m; };
static ttt_calls gc;
#ifndef VC_NATIVE
VC_CONTRACT(ttt_async, "^abc::samples::player_agent::make_move_async\\(\\)");
VC_CONTRACT(ttt_learn, "^abc::samples::player_agent::learn\\(\\)");
extern "C" void vccontract__ttt_async(player_agent*) { gc.moves++; }
extern "C" void vccontract__ttt_learn(player_agent*) { gc.learns++; }
#endif
VC_PROOF(ttt_turns) {
	game* g = (game*)vc_alloc(sizeof(game), "game");
#ifndef VC_NATIVE
	memset(&gc, 0, sizeof gc);
	g->_board._board_state = vc_u32("cells"); g->_board._move_count = vc_u8("count"); g->_board._current_player_id = vc_u8("player"); g->_board._winner = vc_u8("winner"); g->_board._is_game_over = vc_bool("over");
	VC_ASSUME(well_formed(g->_board)); board p = g->_board; u8 pl = vc_u8("mover"); move m; m.row = (int)vc_u32("row"); m.col = (int)vc_u32("col");
	g->_agent_x._player_type = vc_u8("tx"); g->_agent_o._player_type = vc_u8("to"); g->_log = g->_agent_x._log = g->_agent_o._log = nullptr;
	bool ok = g->accept_move(pl, m);
	VC_CHECK("only the player whose turn it is moves", !(ok && pl != p._current_player_id));
	VC_CHECK("a refused move leaves the board alone", ok || same(g->_board, p));
	VC_CHECK("an accepted move is on the board", !ok || (g->_board._move_count == p._move_count + 1 && g->_board.get_move(m) == pl));
	VC_CHECK("an accepted move is recorded", !ok || (g->_moves[p._move_count].row == m.row && g->_moves[p._move_count].col == m.col));
	VC_CHECK("a valid move of the player to move is accepted", ok || pl != p._current_player_id || p._is_game_over || m.row < 0 || m.row > 2 || m.col < 0 || m.col > 2 || p.get_move(m) != 0);
#else
	(void)g;
#endif
}
