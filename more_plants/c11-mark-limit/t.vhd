use std.textio.all;
entity tb is end entity;
architecture a of tb is
  type ip is access integer;
  type iv is array (natural range <>) of ip;
  type ivp is access iv;
begin
  process is
    variable v : ivp;
    variable t : ip;
    variable l : line;
  begin
    v := new iv(0 to 39999);
    v(39990) := new integer'(42);
    for i in 1 to 100000 loop t := new integer'(i); end loop;
    write(l, v(39990).all); writeline(output, l);
    wait;
  end process;
end architecture;
