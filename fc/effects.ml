(* C24: no hidden state, inputs not modified.
   Flow-sensitive pointer-origin analysis over the normalised syntax tree of the
   library.  Origins of a pointer value: a parameter, a static-storage object, or
   "input" (it points to data the function received read-only: a pointer-to-const
   parameter or member, or anything loaded through one).
   Violations: a write to, or through a pointer originating from, a static-storage
   object or input; such a pointer stored where it can be written through later;
   a call to a library function with hidden state. *)
open Cil_types

let oc = open_out (try Sys.getenv "VP_OUT" with Not_found -> "/dev/stdout")
let exempt_files = [ "emv_debug.c" ]   (* the debug configuration *)

let esc s =
  let b = Buffer.create (String.length s + 8) in
  String.iter (fun c -> match c with
    | '"' -> Buffer.add_string b "\\\"" | '\\' -> Buffer.add_string b "\\\\"
    | c when Char.code c < 32 -> Buffer.add_string b " " | c -> Buffer.add_char b c) s;
  Buffer.contents b

type origin = Param of int | Static of string | Input of string
module OS = Set.Make (struct type t = origin let compare = compare end)
module VM = Map.Make (struct type t = varinfo let compare a b = compare a.vid b.vid end)

let srcdir = try Sys.getenv "VP_REPO_SRC" with Not_found -> "/repo/src"
let starts p s = String.length s >= String.length p && String.sub s 0 (String.length p) = p
let file_of (loc : location) =
  String.concat "" (Filepath.Normalized.to_string_list [ (fst loc).Filepath.pos_path ])
let line_of (loc : location) = (fst loc).Filepath.pos_lnum
let in_src loc = starts srcdir (file_of loc)

(* library functions whose result or effect depends on state of their own *)
let stateful = [ "strtok"; "rand"; "srand"; "rand_r"; "random"; "srandom"; "drand48"; "erand48"; "lrand48";
  "mrand48"; "srand48"; "setlocale"; "localtime"; "gmtime"; "asctime"; "ctime"; "getenv"; "secure_getenv"; "setenv";
  "putenv"; "unsetenv"; "time"; "clock"; "clock_gettime"; "timespec_get"; "gettimeofday"; "atexit"; "signal";
  "sigaction"; "mblen"; "mbtowc"; "wctomb"; "fopen"; "open"; "getpid"; "tmpnam"; "strsignal"; "getrandom";
  "arc4random"; "mrand"; "pthread_create"; "pthread_setspecific"; "thrd_create"; "hcreate"; "hsearch"; "tss_set" ]
(* library functions returning a pointer into their argument *)
let deriving = [ "strchr"; "strrchr"; "strstr"; "strcasestr"; "memchr"; "memrchr"; "rawmemchr"; "strpbrk"; "bsearch";
  "memcpy"; "memmove"; "memset"; "strcpy"; "strncpy"; "strcat"; "strncat"; "strchrnul"; "memmem";
  "__builtin_memcpy"; "__builtin_memset"; "__builtin_memmove"; "__builtin_strchr"; "__builtin_memchr" ]

let rec const_type t =
  Cil.typeHasQualifier "const" t ||
  (match Cil.unrollType t with TArray (t, _, _) -> const_type t | _ -> false)
let ptr_const t = match Cil.unrollType t with TPtr (t, _) -> const_type t | _ -> false
let is_ptr t = Cil.isPointerType t
let holds_ptr t = match Cil.unrollType t with TPtr _ | TComp _ | TArray _ -> true | _ -> false

let is_static v =
  v.vglob && not (Cil.isFunctionType v.vtype) && in_src v.vdecl
  && not (List.mem (Filename.basename (file_of v.vdecl)) exempt_files)

type summary = { mutable writes : OS.t; mutable ret : OS.t }
let summaries : (int, summary) Hashtbl.t = Hashtbl.create 97
let summary vi =
  try Hashtbl.find summaries vi.vid
  with Not_found -> let s = { writes = OS.empty; ret = OS.empty } in Hashtbl.replace summaries vi.vid s; s
let bodies : (int, fundec) Hashtbl.t = Hashtbl.create 97
let changed = ref false
let reporting = ref false
let viols = Hashtbl.create 17
let n_writes = ref 0 and n_calls = ref 0 and n_sources = ref 0

let report fn loc kind text =
  if !reporting then Hashtbl.replace viols (fn, line_of loc, kind, text) (file_of loc)

let get st v = try VM.find v st with Not_found -> OS.empty

let rec origin st e = match e.enode with
  | Lval lv -> value_of st lv
  | AddrOf lv | StartOf lv -> address_of st lv
  | CastE (_, e) -> origin st e
  | BinOp ((PlusPI | MinusPI), a, _, _) -> origin st a
  | BinOp ((PlusA | MinusA | BAnd | BOr), a, b, _) -> OS.union (origin st a) (origin st b)
  | UnOp (_, e, _) -> if is_ptr (Cil.typeOf e) then OS.empty else origin st e
  | _ -> OS.empty
and address_of st (host, _) = match host with
  | Var v when is_static v -> OS.singleton (Static v.vname)
  | Var _ -> OS.empty
  | Mem e -> origin st e
and value_of st ((host, off) as lv) =
  let t = Cil.typeOfLval lv in
  let member = if ptr_const t then OS.singleton (Input "read-only data") else OS.empty in
  match host with
  | Var v when v.vglob -> member
  | Var v ->
    let o = get st v in
    if off = NoOffset then o else if holds_ptr t then OS.union o member else OS.empty
  | Mem e ->
    if not (holds_ptr t) then OS.empty
    else OS.union member
        (OS.filter (function Input _ | Static _ -> true | Param _ -> false) (origin st e))

let describe = function
  | Static v -> Printf.sprintf "static object '%s'" v
  | Input s -> s
  | Param _ -> "parameter"

(* a write through a pointer with these origins *)
let written fn loc what os =
  incr n_writes;
  OS.iter (fun o -> match o with
      | Param _ ->
        let s = summary fn.svar in
        if not (OS.mem o s.writes) then (s.writes <- OS.add o s.writes; changed := true)
      | Static _ -> report fn.svar.vname loc "hidden-state" (Printf.sprintf "%s modifies %s" what (describe o))
      | Input _ -> report fn.svar.vname loc "input-modified" (Printf.sprintf "%s modifies %s" what (describe o))) os

let store fn st loc what ((host, off) as lv) os =
  match host with
  | Var v when is_static v ->
    incr n_writes;
    report fn.svar.vname loc "hidden-state" (Printf.sprintf "%s modifies static object '%s'" what v.vname);
    st
  | Var v when v.vglob -> st
  | Var v ->
    if off = NoOffset && not (holds_ptr v.vtype && not (is_ptr v.vtype)) then VM.add v os st
    else if OS.is_empty os then (if off = NoOffset then VM.add v os st else st)
    else VM.add v (OS.union os (get st v)) st
  | Mem p ->
    written fn loc what (origin st p);
    let t = Cil.typeOfLval lv in
    (if is_ptr t && not (ptr_const t) then
       OS.iter (fun o -> match o with
           | Static _ | Input _ ->
             report fn.svar.vname loc "escape"
               (Printf.sprintf "a writable pointer to %s is stored" (describe o))
           | Param _ -> ()) os);
    st

let formals_of_type t = match Cil.unrollType t with
  | TFun (_, Some l, _, _) -> List.map (fun (_, t, _) -> t) l
  | _ -> []

let call fn st loc lvo callee args =
  incr n_calls;
  let aos = List.map (fun a -> if holds_ptr (Cil.typeOf a) || Cil.isIntegralType (Cil.typeOf a) then origin st a else OS.empty) args in
  let nth i = try List.nth aos i with _ -> OS.empty in
  let result = match callee with
    | `Direct vi when Hashtbl.mem bodies vi.vid ->
      let s = summary vi in
      OS.iter (function
          | Param i -> written fn loc (Printf.sprintf "call of %s" vi.vname) (nth i)
          | _ -> ()) s.writes;
      OS.fold (fun o acc -> match o with
          | Param i -> OS.union (nth i) acc
          | o -> OS.add o acc) s.ret OS.empty
    | `Direct vi ->
      let base = (* variadic specialisations keep the base name as a prefix *) vi.vname in
      if List.mem base stateful && not (List.mem (Filename.basename (file_of loc)) exempt_files) then
        report fn.svar.vname loc "hidden-state" (Printf.sprintf "call of %s, which depends on state outside the arguments" base);
      List.iteri (fun i t -> if is_ptr t && not (ptr_const t) then
                     written fn loc (Printf.sprintf "call of %s" base) (nth i))
        (formals_of_type vi.vtype);
      if List.mem base deriving then List.fold_left OS.union OS.empty aos else OS.empty
    | `Indirect t ->
      List.iteri (fun i t -> if is_ptr t && not (ptr_const t) then
                     written fn loc "call through a function pointer" (nth i)) (formals_of_type t);
      OS.empty in
  match lvo with
  | None -> st
  | Some lv -> store fn st loc "call result" lv result

let rec init_origin st = function
  | SingleInit e -> origin st e
  | CompoundInit (_, l) -> List.fold_left (fun a (_, i) -> OS.union a (init_origin st i)) OS.empty l

let instr fn st = function
  | Set (lv, e, loc) -> store fn st loc "assignment" lv (if holds_ptr (Cil.typeOf e) || Cil.isIntegralType (Cil.typeOf e) then origin st e else OS.empty)
  | Call (lvo, { enode = Lval (Var vi, NoOffset) }, args, loc) when Cil.isFunctionType vi.vtype ->
    call fn st loc lvo (`Direct vi) args
  | Call (lvo, f, args, loc) -> call fn st loc lvo (`Indirect (Cil.typeOf f)) args
  | Local_init (v, AssignInit i, _) -> VM.add v (init_origin st i) st
  | Local_init (v, ConsInit (f, args, _), loc) -> call fn st loc (Some (Var v, NoOffset)) (`Direct f) args
  | _ -> st

let join a b = VM.union (fun _ x y -> Some (OS.union x y)) a b

(* parameters of the public interface that are inputs by definition *)
let declared_inputs : (string * int, unit) Hashtbl.t = Hashtbl.create 97
let () = match Sys.getenv_opt "VP_INPUTS" with
  | None -> ()
  | Some f ->
    let ic = open_in f in
    (try while true do
         match String.split_on_char ' ' (String.trim (input_line ic)) with
         | n :: l -> List.iter (fun i -> Hashtbl.replace declared_inputs (n, int_of_string i) ()) l
         | [] -> ()
       done with End_of_file -> close_in ic)

let analyse fn =
  let entry =
    let i = ref (-1) in
    List.fold_left (fun st v ->
        incr i;
        if is_ptr v.vtype then begin
          let o = OS.singleton (Param !i) in
          let input = ptr_const v.vtype || Hashtbl.mem declared_inputs (fn.svar.vname, !i) in
          if input && !reporting then incr n_sources;
          let o = if input then OS.add (Input (Printf.sprintf "the input '%s' of %s" v.vname fn.svar.vname)) o else o in
          VM.add v o st
        end else st) VM.empty fn.sformals in
  let states = Hashtbl.create 97 in
  let work = Queue.create () in
  let push st s =
    match Hashtbl.find_opt states s.sid with
    | None -> Hashtbl.replace states s.sid st; Queue.add s work
    | Some old ->
      let j = join old st in
      if not (VM.equal OS.equal j old) then (Hashtbl.replace states s.sid j; Queue.add s work) in
  (match fn.sbody.bstmts with s :: _ -> push entry s | [] -> ());
  while not (Queue.is_empty work) do
    let s = Queue.pop work in
    let st = Hashtbl.find states s.sid in
    let st' = match s.skind with
      | Instr i -> instr fn st i
      | Return (Some e, _) ->
        let sm = summary fn.svar in
        let o = if holds_ptr (Cil.typeOf e) then origin st e else OS.empty in
        if not (OS.subset o sm.ret) then (sm.ret <- OS.union o sm.ret; changed := true);
        st
      | _ -> st in
    List.iter (push st') s.succs
  done

let main () =
  Ast.compute ();
  Globals.Functions.iter (fun kf ->
      if Kernel_function.is_definition kf then begin
        let fd = Kernel_function.get_definition kf in
        if in_src (Kernel_function.get_location kf) then Hashtbl.replace bodies fd.svar.vid fd
      end);
  let all = Hashtbl.fold (fun _ f l -> f :: l) bodies [] in
  changed := true;
  let rounds = ref 0 in
  while !changed && !rounds < 50 do
    changed := false; incr rounds;
    List.iter analyse all
  done;
  reporting := true; n_writes := 0; n_calls := 0;
  List.iter analyse all;
  (match Sys.getenv_opt "VP_DUMP_INPUTS" with
   | None -> ()
   | Some f ->
     let o = open_out f in
     List.iter (fun fd ->
         if fd.svar.vstorage <> Static then
           match List.filter_map (fun x -> x) (List.mapi (fun i v -> if ptr_const v.vtype then Some (string_of_int i) else None) fd.sformals) with
           | [] -> ()
           | l -> Printf.fprintf o "%s %s\n" fd.svar.vname (String.concat " " l)) all;
     close_out o);
  let statics = ref [] in
  Globals.Vars.iter (fun v _ -> if is_static v then statics := v.vname :: !statics);
  Hashtbl.iter (fun (fn, line, kind, text) file ->
      Printf.fprintf oc "{\"k\":\"viol\",\"kind\":\"%s\",\"fun\":\"%s\",\"file\":\"%s\",\"line\":%d,\"text\":\"%s\"}\n"
        kind (esc fn) (esc file) line (esc text)) viols;
  List.iter (fun f -> Printf.fprintf oc "{\"k\":\"fun\",\"name\":\"%s\",\"file\":\"%s\"}\n" (esc f.svar.vname)
                (esc (Filename.basename (file_of f.svar.vdecl)))) all;
  Printf.fprintf oc "{\"k\":\"end\",\"rounds\":%d,\"writes\":%d,\"calls\":%d,\"const_params\":%d,\"statics\":%d}\n"
    !rounds !n_writes !n_calls !n_sources (List.length !statics);
  close_out oc

let () = Db.Main.extend main
