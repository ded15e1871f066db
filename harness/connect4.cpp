// C27: the connect-four board and the turn rule of the game.
#include "vc.h"
#define private public
#include "samples/connect4/game.h"
#undef private
using namespace abc::samples;
abc::samples::vmem_bundle* abc::samples::player_agent::_vmem = nullptr;
static int size_of(u64 s, int c) { return (int)((s >> (3 * c)) & 7); }
static u8 bit_of(u64 s, int r, int c) { return (u8)((s >> (21 + 6 * c + r)) & 1); }
// 0 and 1 are the players, 2 is nobody
static u8 at(u64 s, int r, int c) { u8 e = r >= size_of(s, c); return (u8)(2 * e + (1 - e) * bit_of(s, r, c)); }
static bool is(u64 s, u8 p, int r, int c) { return (r < size_of(s, c)) & (bit_of(s, r, c) == p); }
static u64 col_bits(u64 s, int c) { return (s >> (21 + 6 * c)) & 63; }
static bool col_ok(u64 s, int c) { return (size_of(s, c) <= 6) & ((col_bits(s, c) >> size_of(s, c)) == 0); }
static int taken(u64 s) { return size_of(s, 0) + size_of(s, 1) + size_of(s, 2) + size_of(s, 3) + size_of(s, 4) + size_of(s, 5) + size_of(s, 6); }
static bool cols_ok(u64 s) { return (s >> 63 == 0) & col_ok(s, 0) & col_ok(s, 1) & col_ok(s, 2) & col_ok(s, 3) & col_ok(s, 4) & col_ok(s, 5) & col_ok(s, 6); }
// four in the direction (dr, dc), the first of them k steps back from (r, c)
static bool four_at(u64 s, u8 p, int r, int c, int dr, int dc) {
	if (r < 0 || c < 0 || r > 5 || c > 6 || r + 3 * dr < 0 || r + 3 * dr > 5 || c + 3 * dc < 0 || c + 3 * dc > 6) return false;
	return is(s, p, r, c) & is(s, p, r + dr, c + dc) & is(s, p, r + 2 * dr, c + 2 * dc) & is(s, p, r + 3 * dr, c + 3 * dc);
}
static bool four_dir(u64 s, u8 p, int r, int c, int dr, int dc) {
	return four_at(s, p, r, c, dr, dc) | four_at(s, p, r - dr, c - dc, dr, dc) | four_at(s, p, r - 2 * dr, c - 2 * dc, dr, dc) | four_at(s, p, r - 3 * dr, c - 3 * dc, dr, dc);
}
static bool four(u64 s, u8 p, int r, int c) { return four_dir(s, p, r, c, 0, 1) | four_dir(s, p, r, c, 1, 0) | four_dir(s, p, r, c, 1, 1) | four_dir(s, p, r, c, 1, -1); }
static bool well_formed(const board& b) {
	int n = (int)b._move_count;
	return cols_ok(b._board_state) & (n >= 0) & (n <= 42) & (n == taken(b._board_state)) & (b._current_player_id <= 1)
		& (b._is_game_over ? (b._winner <= 2) & (b._current_player_id == (n + 1) % 2) & (n > 0) : (b._winner == 2) & (n < 42) & (b._current_player_id == n % 2));
}
static void fill(board& b) { b._board_state = vc_u64("board"); b._move_count = vc_u8("count"); b._current_player_id = vc_u8("player"); b._winner = vc_u8("winner"); b._is_game_over = vc_bool("over"); b._log = nullptr; }
static board any_board() { board b; fill(b); VC_ASSUME(well_formed(b)); return b; }
static bool same(const board& a, const board& b) { return (a._board_state == b._board_state) & (a._move_count == b._move_count) & (a._current_player_id == b._current_player_id) & (a._winner == b._winner) & (a._is_game_over == b._is_game_over); }
#ifndef VC_NATIVE
VC_MERGE(c4_get, 1, "^abc::samples::board::get_move\\(");
VC_CONTRACT(c4_winner, "^abc::samples::board::check_winner\\(");
extern "C" bool vccontract__c4_winner(board* b, const move* m) {
	u64 s = b->_board_state; u8 p = b->_current_player_id; int r = m->row, c = m->col;
	vc_assert((p <= 1) & (r >= 0) & (r < 6) & (c >= 0) & (c < 7), "requires a player and a cell"); vc_assert(cols_ok(s) & (size_of(s, c) == r + 1), "requires a well-formed board and the top cell of a column");
	auto w = [&]() -> bool { return four(s, p, r, c); }; u8 r8 = vc_eval(w); u8 d = b->_move_count == 42; u8 over = b->_is_game_over;
	b->_winner = (u8)(r8 * p + (1 - r8) * (d * 2 + (1 - d) * b->_winner)); b->_is_game_over = (over | r8 | d) != 0;
	return b->_is_game_over;
}
#endif
static void winner(int r, int c) {
	vc_unroll(7); vc_join();
	board b; fill(b); VC_ASSUME((b._current_player_id <= 1) & cols_ok(b._board_state)); 
	board p = b; move m; m.row = r; m.col = c; VC_ASSUME((size_of(p._board_state, c) == r + 1) & (bit_of(p._board_state, r, c) == p._current_player_id));
	auto w = [&]() -> bool { return four(p._board_state, p._current_player_id, r, c); }; bool f = vc_eval(w);
	bool res = b.check_winner(m);
	VC_CHECK("a win exactly when four of the mover's stones are in line through the cell", (f ? b._winner == p._current_player_id : b._winner == (p._move_count == 42 ? 2 : p._winner)));
	VC_CHECK("over on a win or a full board", res == b._is_game_over && b._is_game_over == (p._is_game_over | f | p._move_count == 42));
	VC_CHECK("the referee touches nothing else", b._board_state == p._board_state && b._move_count == p._move_count && b._current_player_id == p._current_player_id);
}
VC_PROOF(c4_winner__00) { winner(0, 0); }
VC_PROOF(c4_winner__10) { winner(1, 0); }
VC_PROOF(c4_winner__20) { winner(2, 0); }
VC_PROOF(c4_winner__30) { winner(3, 0); }
VC_PROOF(c4_winner__40) { winner(4, 0); }
VC_PROOF(c4_winner__50) { winner(5, 0); }
VC_PROOF(c4_winner__01) { winner(0, 1); }
VC_PROOF(c4_winner__11) { winner(1, 1); }
VC_PROOF(c4_winner__21) { winner(2, 1); }
VC_PROOF(c4_winner__31) { winner(3, 1); }
VC_PROOF(c4_winner__41) { winner(4, 1); }
VC_PROOF(c4_winner__51) { winner(5, 1); }
VC_PROOF(c4_winner__02) { winner(0, 2); }
VC_PROOF(c4_winner__12) { winner(1, 2); }
VC_PROOF(c4_winner__22) { winner(2, 2); }
VC_PROOF(c4_winner__32) { winner(3, 2); }
VC_PROOF(c4_winner__42) { winner(4, 2); }
VC_PROOF(c4_winner__52) { winner(5, 2); }
VC_PROOF(c4_winner__03) { winner(0, 3); }
VC_PROOF(c4_winner__13) { winner(1, 3); }
VC_PROOF(c4_winner__23) { winner(2, 3); }
VC_PROOF(c4_winner__33) { winner(3, 3); }
VC_PROOF(c4_winner__43) { winner(4, 3); }
VC_PROOF(c4_winner__53) { winner(5, 3); }
VC_PROOF(c4_winner__04) { winner(0, 4); }
VC_PROOF(c4_winner__14) { winner(1, 4); }
VC_PROOF(c4_winner__24) { winner(2, 4); }
VC_PROOF(c4_winner__34) { winner(3, 4); }
VC_PROOF(c4_winner__44) { winner(4, 4); }
VC_PROOF(c4_winner__54) { winner(5, 4); }
VC_PROOF(c4_winner__05) { winner(0, 5); }
VC_PROOF(c4_winner__15) { winner(1, 5); }
VC_PROOF(c4_winner__25) { winner(2, 5); }
VC_PROOF(c4_winner__35) { winner(3, 5); }
VC_PROOF(c4_winner__45) { winner(4, 5); }
VC_PROOF(c4_winner__55) { winner(5, 5); }
VC_PROOF(c4_winner__06) { winner(0, 6); }
VC_PROOF(c4_winner__16) { winner(1, 6); }
VC_PROOF(c4_winner__26) { winner(2, 6); }
VC_PROOF(c4_winner__36) { winner(3, 6); }
VC_PROOF(c4_winner__46) { winner(4, 6); }
VC_PROOF(c4_winner__56) { winner(5, 6); }
VC_PROOF(c4_reset) { board b; b.reset(nullptr); VC_CHECK("a new board is empty and x is to move", well_formed(b) && b._board_state == 0 && !b._is_game_over && b._current_player_id == 0);
	board c = any_board(); c.reset(nullptr); VC_CHECK("reset", same(b, c)); }
static bool sizes(u64 t, u64 s, int c) {
	return (size_of(t, 0) == size_of(s, 0) + (c == 0)) & (size_of(t, 1) == size_of(s, 1) + (c == 1)) & (size_of(t, 2) == size_of(s, 2) + (c == 2)) & (size_of(t, 3) == size_of(s, 3) + (c == 3))
		& (size_of(t, 4) == size_of(s, 4) + (c == 4)) & (size_of(t, 5) == size_of(s, 5) + (c == 5)) & (size_of(t, 6) == size_of(s, 6) + (c == 6));
}
static void accept(int r, int c) {
	board b = any_board(), p = b; u64 s = p._board_state; move m; m.row = r; m.col = c;
	VC_CHECK("the cell reads as what was put there", b.get_move(m) == at(s, r, c) && b.has_move(0, m) == (at(s, r, c) == 0) && b.has_move(1, m) == (at(s, r, c) == 1) && b.col_size(c) == size_of(s, c));
	bool ok = b.accept_move(m);
	VC_CHECK("accepted exactly when the game goes on and the cell is the lowest free one of its column", ok == (!p._is_game_over && size_of(s, c) == r));
	if (!ok) { VC_CHECK("a refused move changes nothing", same(b, p)); return; }
	u64 t = b._board_state;
	VC_CHECK("the stone is on that cell, all others stay", t == s + (u64(1) << (3 * c)) + ((u64)p._current_player_id << (21 + 6 * c + r)) && b.move_count() == p._move_count + 1);
	VC_CHECK("a win exactly when four of the mover's stones are in line through the cell", b.winner() == (four(t, p._current_player_id, r, c) ? p._current_player_id : 2));
	VC_CHECK("over exactly on a win or a full board", b.is_game_over() == (four(t, p._current_player_id, r, c) || b.move_count() == 42));
	VC_CHECK("the other player moves next", b.is_game_over() || b.current_player_id() == 1 - p._current_player_id);
	VC_CHECK("one column grows by one", sizes(t, s, c)); VC_ASSUME(sizes(t, s, c));
	VC_CHECK("the columns stay well-formed", cols_ok(t)); VC_CHECK("the count stays right", taken(t) == taken(s) + 1); VC_ASSUME(taken(t) == taken(s) + 1);
	VC_CHECK("the board stays well-formed", well_formed(b));
	bool un = b.undo_move(m);
	VC_CHECK("undoing the move restores the position", un && same(b, p));
}
VC_PROOF(c4_accept_00) { accept(0, 0); }
VC_PROOF(c4_accept_10) { accept(1, 0); }
VC_PROOF(c4_accept_20) { accept(2, 0); }
VC_PROOF(c4_accept_30) { accept(3, 0); }
VC_PROOF(c4_accept_40) { accept(4, 0); }
VC_PROOF(c4_accept_50) { accept(5, 0); }
VC_PROOF(c4_accept_01) { accept(0, 1); }
VC_PROOF(c4_accept_11) { accept(1, 1); }
VC_PROOF(c4_accept_21) { accept(2, 1); }
VC_PROOF(c4_accept_31) { accept(3, 1); }
VC_PROOF(c4_accept_41) { accept(4, 1); }
VC_PROOF(c4_accept_51) { accept(5, 1); }
VC_PROOF(c4_accept_02) { accept(0, 2); }
VC_PROOF(c4_accept_12) { accept(1, 2); }
VC_PROOF(c4_accept_22) { accept(2, 2); }
VC_PROOF(c4_accept_32) { accept(3, 2); }
VC_PROOF(c4_accept_42) { accept(4, 2); }
VC_PROOF(c4_accept_52) { accept(5, 2); }
VC_PROOF(c4_accept_03) { accept(0, 3); }
VC_PROOF(c4_accept_13) { accept(1, 3); }
VC_PROOF(c4_accept_23) { accept(2, 3); }
VC_PROOF(c4_accept_33) { accept(3, 3); }
VC_PROOF(c4_accept_43) { accept(4, 3); }
VC_PROOF(c4_accept_53) { accept(5, 3); }
VC_PROOF(c4_accept_04) { accept(0, 4); }
VC_PROOF(c4_accept_14) { accept(1, 4); }
VC_PROOF(c4_accept_24) { accept(2, 4); }
VC_PROOF(c4_accept_34) { accept(3, 4); }
VC_PROOF(c4_accept_44) { accept(4, 4); }
VC_PROOF(c4_accept_54) { accept(5, 4); }
VC_PROOF(c4_accept_05) { accept(0, 5); }
VC_PROOF(c4_accept_15) { accept(1, 5); }
VC_PROOF(c4_accept_25) { accept(2, 5); }
VC_PROOF(c4_accept_35) { accept(3, 5); }
VC_PROOF(c4_accept_45) { accept(4, 5); }
VC_PROOF(c4_accept_55) { accept(5, 5); }
VC_PROOF(c4_accept_06) { accept(0, 6); }
VC_PROOF(c4_accept_16) { accept(1, 6); }
VC_PROOF(c4_accept_26) { accept(2, 6); }
VC_PROOF(c4_accept_36) { accept(3, 6); }
VC_PROOF(c4_accept_46) { accept(4, 6); }
VC_PROOF(c4_accept_56) { accept(5, 6); }
VC_PROOF(c4_outside) {
	board b = any_board(), p = b; move m; m.row = (int)vc_u32("row"); m.col = (int)vc_u32("col"); vc_assume(m.row < 0 || m.row > 5 || m.col < 0 || m.col > 6);
	VC_CHECK("a cell outside of the board is refused", !b.accept_move(m) && same(b, p) && !b.undo_move(m) && same(b, p));
}
VC_PROOF(c4_undo) {
	board b = any_board(), p = b; move m; m.row = vc_u8("row"); m.col = vc_u8("col"); vc_assume(m.row < 6 && m.col < 7);
	vc_assume(m.row + 1 < size_of(b._board_state, m.col));
	VC_CHECK("a stone with another one on top stays", !b.undo_move(m) && same(b, p));
}
VC_PROOF(c4_opponent) { VC_CHECK("opponents", board::opponent(0) == 1 && board::opponent(1) == 0); }
// ---------------------------------------------------------------- the game: turns
struct c4_calls { u32 learns, moves; };
static c4_calls gc;
#ifndef VC_NATIVE
VC_CONTRACT(c4_async, "^abc::samples::player_agent::make_move_async\\(\\)");
VC_CONTRACT(c4_learn, "^abc::samples::player_agent::learn\\(\\)");
extern "C" void vccontract__c4_async(player_agent*) { gc.moves++; }
extern "C" void vccontract__c4_learn(player_agent*) { gc.learns++; }
#endif
VC_PROOF(c4_turns) {
	game* g = (game*)vc_alloc(sizeof(game), "game");
#ifndef VC_NATIVE
	memset(&gc, 0, sizeof gc);
	fill(g->_board); VC_ASSUME(well_formed(g->_board)); board p = g->_board; u8 pl = vc_u8("mover"); move m; m.row = (int)vc_u32("row"); m.col = (int)vc_u32("col");
	g->_agent_x._player_type = vc_u8("tx"); g->_agent_o._player_type = vc_u8("to"); g->_log = g->_agent_x._log = g->_agent_o._log = nullptr;
	bool ok = g->accept_move(pl, m);
	VC_CHECK("only the player whose turn it is moves", !(ok && pl != p._current_player_id));
	VC_CHECK("a refused move leaves the board alone", ok || same(g->_board, p));
	VC_CHECK("an accepted move is on the board", !ok || (g->_board._move_count == p._move_count + 1 && g->_board.get_move(m) == pl));
	VC_CHECK("an accepted move is recorded", !ok || (g->_moves[p._move_count].row == m.row && g->_moves[p._move_count].col == m.col));
	VC_CHECK("a valid move of the player to move is accepted", ok || pl != p._current_player_id || p._is_game_over || m.row < 0 || m.row > 5 || m.col < 0 || m.col > 6 || size_of(p._board_state, m.col) != m.row);
#else
	(void)g;
#endif
}
