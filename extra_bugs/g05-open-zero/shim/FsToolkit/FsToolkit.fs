namespace FsToolkit.ErrorHandling

/// Minimal stand-in for the parts of FsToolkit.ErrorHandling 2.7.0 that FrontEndAst uses
[<AutoOpen>]
module ResultCE =
    type ResultBuilder() =
        member _.Return(v: 'a) : Result<'a,'e> = Ok v
        member _.ReturnFrom(r: Result<'a,'e>) = r
        member _.Bind(r: Result<'a,'e>, f: 'a -> Result<'b,'e>) = Result.bind f r
        member _.Zero() : Result<unit,'e> = Ok ()
        member _.Delay(f: unit -> Result<'a,'e>) = f
        member _.Run(f: unit -> Result<'a,'e>) = f ()
        member _.Combine(r: Result<unit,'e>, f: unit -> Result<'a,'e>) = Result.bind f r
        member _.TryWith(f: unit -> Result<'a,'e>, h: exn -> Result<'a,'e>) = try f () with e -> h e
        member _.TryFinally(f: unit -> Result<'a,'e>, c: unit -> unit) = try f () finally c ()
        member this.While(g: unit -> bool, body: unit -> Result<unit,'e>) : Result<unit,'e> =
            let mutable go = true
            let mutable res = Ok ()
            while go && g () do
                match body () with
                | Ok () -> ()
                | Error e -> res <- Error e; go <- false
            res
        member this.For(s: seq<'a>, body: 'a -> Result<unit,'e>) : Result<unit,'e> =
            let mutable res = Ok ()
            use en = s.GetEnumerator()
            let mutable go = true
            while go && en.MoveNext() do
                match body en.Current with
                | Ok () -> ()
                | Error e -> res <- Error e; go <- false
            res
    let result = ResultBuilder()

[<RequireQualifiedAccess>]
module List =
    let traverseResultM (f: 'a -> Result<'b,'e>) (xs: 'a list) : Result<'b list,'e> =
        let rec go acc xs =
            match xs with
            | [] -> Ok (List.rev acc)
            | x :: rest ->
                match f x with
                | Ok y -> go (y :: acc) rest
                | Error e -> Error e
        go [] xs
    let sequenceResultM (xs: Result<'a,'e> list) : Result<'a list,'e> = traverseResultM id xs
