(* Frama-C driver script used by every Eva-based check.
   1. redirects calls  f(...)  to  vp_wrap_f(...)  when the harness defines
      such a wrapper (used only to attach state partitioning and observers to
      call boundaries, whatever the calling code looks like);
   2. runs Eva (abstract interpretation);
   3. dumps, as JSON lines, every undischarged obligation (alarms, libc
      preconditions), every reachable vp_fail/vp_possible/vp_reached marker and
      the coverage of the analysed functions. *)
open Cil_types

let out_file = try Sys.getenv "VP_OUT" with Not_found -> "/dev/stdout"

let esc s =
  let b = Buffer.create (String.length s + 8) in
  String.iter (fun c -> match c with
    | '"' -> Buffer.add_string b "\\\""
    | '\\' -> Buffer.add_string b "\\\\"
    | '\n' -> Buffer.add_string b " "
    | c when Char.code c < 32 -> Buffer.add_string b " "
    | c -> Buffer.add_char b c) s;
  Buffer.contents b

(* ---- call redirection ---- *)
let wrappers = Hashtbl.create 17

class redirect = object (self)
  inherit Visitor.frama_c_inplace
  val mutable cur = ""
  method! vglob_aux g = match g with
    | GFun (fd, _) -> cur <- fd.svar.vname; Cil.DoChildren
    | _ -> Cil.SkipChildren
  method! vinst i =
    let target vi =
      match Hashtbl.find_opt wrappers vi.vname with
      | Some w when cur <> w.vname -> Some w
      | _ -> None in
    match i with
    | Call (lv, ({ enode = Lval (Var vi, NoOffset) } as e), args, loc) ->
      (match target vi with
       | Some w ->
         let e' = Cil.new_exp ~loc:e.eloc (Lval (Var w, NoOffset)) in
         Cil.ChangeTo [ Call (lv, e', args, loc) ]
       | None -> Cil.SkipChildren)
    | Local_init (v, ConsInit (vi, args, k), loc) ->
      (match target vi with
       | Some w -> Cil.ChangeTo [ Local_init (v, ConsInit (w, args, k), loc) ]
       | None -> Cil.SkipChildren)
    | _ -> Cil.SkipChildren
end

let transform () =
  let pre = "vp_wrap_" in
  let n = String.length pre in
  Globals.Functions.iter (fun kf ->
      let vi = Kernel_function.get_vi kf in
      if Kernel_function.is_definition kf
      && String.length vi.vname > n && String.sub vi.vname 0 n = pre then
        Hashtbl.replace wrappers
          (String.sub vi.vname n (String.length vi.vname - n)) vi);
  if Hashtbl.length wrappers > 0 then begin
    Visitor.visitFramacFileSameGlobals (new redirect) (Ast.get ());
    Ast.mark_as_changed ()
  end

(* ---- value partitioning at assignments (precision only) ---- *)
let emitter = Emitter.create "vp" [ Emitter.Code_annot ] ~correctness:[] ~tuning:[]

let autosplit () =
  match Sys.getenv_opt "VP_AUTOSPLIT" with
  | None | Some "" -> ()
  | Some re ->
    let re = Str.regexp re in
    let matches n = Str.string_match re n 0 && Str.match_end () = String.length n in
    let rec last_field off acc = match off with
      | Field (f, o) -> last_field o (Some f.fname)
      | Index (_, o) -> last_field o acc
      | NoOffset -> acc in
    let name_of (host, off) = match last_field off None, host with
      | Some f, _ -> Some f
      | None, Var v -> Some v.vname
      | None, Mem { enode = Lval (Var v, NoOffset) } -> Some ("*" ^ v.vname)
      | None, Mem _ -> None in
    let under f =
      let r = try Sys.getenv "VP_REPO_SRC" with Not_found -> "/repo/src" in
      String.length f >= String.length r && String.sub f 0 (String.length r) = r in
    Globals.Functions.iter (fun kf ->
        if Kernel_function.is_definition kf then begin
          let pos = fst (Kernel_function.get_location kf) in
          if under (Filepath.Normalized.to_string_list [pos.Filepath.pos_path] |> String.concat "") then
            let fd = Kernel_function.get_definition kf in
            let add s lv =
              let ty = Cil.typeOfLval lv in
              if Cil.isIntegralType ty then
                match name_of lv with
                | Some n when matches n ->
                  let e = Cil.new_exp ~loc:(Cil_datatype.Stmt.loc s) (Lval lv) in
                  List.iter (fun s' ->
                      Eva.Eva_annotations.add_flow_annot ~emitter s'
                        (Eva.Eva_annotations.FlowSplit
                           (Eva.Eva_annotations.Expression e,
                            Eva.Eva_annotations.Static))) s.succs
                | _ -> () in
            List.iter (fun s -> match s.skind with
                | Instr (Set (lv, _, _)) -> add s lv
                | Instr (Call (Some lv, _, _, _)) -> add s lv
                | Instr (Local_init (v, _, _)) -> add s (Var v, NoOffset)
                | _ -> ()) fd.sallstmts
        end)

(* ---- report ---- *)
let rec str_of_exp e = match e.enode with
  | Const (CStr s) -> Some s
  | CastE (_, e) -> str_of_exp e
  | _ -> None

let report () =
  let oc = open_out out_file in
  let p fmt = Printf.fprintf oc fmt in
  let locstr (l : Cil_types.location) =
    let pos = fst l in
    (Format.asprintf "%a" Datatype.Filepath.pretty pos.Filepath.pos_path,
     pos.Filepath.pos_lnum) in
  (* coverage and markers *)
  Globals.Functions.iter (fun kf ->
      if Kernel_function.is_definition kf && Eva.Results.is_called kf then begin
        let fd = Kernel_function.get_definition kf in
        let tot = List.length fd.sallstmts in
        let rch = List.length
            (List.filter Eva.Results.is_reachable fd.sallstmts) in
        let f, l = locstr (Kernel_function.get_location kf) in
        p "{\"k\":\"fun\",\"name\":\"%s\",\"file\":\"%s\",\"line\":%d,\"stmts\":%d,\"reached\":%d}\n"
          (esc (Kernel_function.get_name kf)) (esc f) l tot rch;
        List.iter (fun s -> match s.skind with
            | Instr (Call (_, { enode = Lval (Var vi, NoOffset) }, args, loc))
              when List.mem vi.vname [ "vp_fail"; "vp_possible"; "vp_reached" ] ->
              let f, l = locstr loc in
              let name = match args with
                | a :: _ -> (match str_of_exp a with Some s -> s | None -> "?")
                | [] -> "?" in
              let reach = Eva.Results.is_reachable s in
              p "{\"k\":\"mark\",\"what\":\"%s\",\"name\":\"%s\",\"reach\":%b,\"fun\":\"%s\",\"file\":\"%s\",\"line\":%d}\n"
                vi.vname (esc name) reach (esc (Kernel_function.get_name kf)) (esc f) l
            | _ -> ()) fd.sallstmts
      end);
  (* obligations *)
  Property_status.iter (fun ip ->
      let st = Property_status.get ip in
      let status = match st with
        | Property_status.Never_tried -> "never"
        | Property_status.Best (Property_status.True, _) -> "valid"
        | Property_status.Best (Property_status.False_if_reachable, _) -> "invalid"
        | Property_status.Best (Property_status.False_and_reachable, _) -> "invalid"
        | Property_status.Best (Property_status.Dont_know, _) -> "unknown"
        | Property_status.Inconsistent _ -> "inconsistent" in
      if status <> "never" then begin
        let kind, reach = match ip with
          | Property.IPCodeAnnot { Property.ica_stmt; ica_ca } ->
            (match Alarms.find ica_ca with
             | Some a -> ("alarm:" ^ Alarms.get_name a, Eva.Results.is_reachable ica_stmt)
             | None -> ("annot", Eva.Results.is_reachable ica_stmt))
          | Property.IPPropertyInstance { Property.ii_stmt } ->
            ("pre", Eva.Results.is_reachable ii_stmt)
          | _ -> ("other", true) in
        if kind <> "other" then begin
          let f, l = locstr (Property.location ip) in
          let kf = match Property.get_kf ip with
            | Some k -> Kernel_function.get_name k | None -> "" in
          if status <> "valid" && reach then
            p "{\"k\":\"ob\",\"kind\":\"%s\",\"status\":\"%s\",\"fun\":\"%s\",\"file\":\"%s\",\"line\":%d,\"text\":\"%s\"}\n"
              (esc kind) status (esc kf) (esc f) l
              (esc (Format.asprintf "%a" Property.short_pretty ip ^ " " ^
                    (match ip with
                     | Property.IPCodeAnnot { Property.ica_ca } ->
                       Format.asprintf "%a" Printer.pp_code_annotation ica_ca
                     | Property.IPPropertyInstance { Property.ii_ip } ->
                       Format.asprintf "%a" Property.pretty ii_ip
                     | _ -> "")))
          else p "{\"k\":\"ok\"}\n"
        end
      end);
  p "{\"k\":\"end\"}\n";
  close_out oc

let () = Db.Main.extend (fun () ->
    Ast.compute ();
    transform ();
    autosplit ();
    Eva.Analysis.compute ();
    report ())
